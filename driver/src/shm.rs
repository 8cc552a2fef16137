//! Mirror of rt/simrt.h.
#![allow(dead_code)]
pub const MAXRANKS: usize = 16;
pub const MAXFILES: usize = 8;
pub const MAXRACES: usize = 32;
pub const NSTREAMS: usize = 16;
pub const OUTCAP: usize = 1 << 22;
pub const ERRCAP: usize = 1 << 12;
pub const FILECAP: usize = 1 << 24;
pub const DECCAP: usize = 1 << 22;
pub const MPICAP: usize = 1 << 28;
pub const LOGCAP: usize = 1 << 20;
pub const TRACECAP: usize = 1 << 17;
pub const MAGIC: u64 = 0x57414c4b59534d32;

pub const S_SCHED: usize = 0;
pub const S_FUTEX: usize = 1;
pub const S_TCREATE: usize = 2;
pub const S_MALLOC: usize = 3;
pub const S_OPEN: usize = 4;
pub const S_READ: usize = 5;
pub const S_WRITE: usize = 6;
pub const S_CPU: usize = 7;
pub const S_NET: usize = 8;
pub const S_EAGER: usize = 9;
pub const S_CRASH: usize = 10;
pub const S_REDUCE: usize = 11;
pub const S_COLL: usize = 12;
pub const S_CLOCK: usize = 13;
pub const S_DROP: usize = 14;

pub const STREAM_NAMES: [&str; NSTREAMS] = [
    "sched", "futex", "thread-create", "malloc", "open", "read", "write", "cpu-count", "net", "send-mode", "crash",
    "reduce-order", "collective-exit", "clock", "drop", "-",
];
/// names of the values of the fault streams
pub fn value_name(stream: usize, v: usize) -> String {
    let t: &[&str] = match stream {
        S_FUTEX => &["", "spurious-wakeup", "EINTR"],
        S_TCREATE => &["", "EAGAIN"],
        S_MALLOC => &["", "out-of-memory"],
        S_OPEN => &["", "ENOENT", "EACCES", "EMFILE", "EIO", "EINTR"],
        S_READ => &["", "EINTR", "one-byte", "short", "EIO", "early-eof"],
        S_WRITE => &["", "EINTR", "one-byte", "short", "ENOSPC", "EPIPE", "EIO", "EAGAIN", "killed"],
        S_CPU => &["", "undetectable"],
        S_EAGER => &["", "synchronous-send"],
        S_CRASH => &["", "process-dies"],
        S_REDUCE => &["", "reversed", "rotated", "tree"],
        S_COLL => &["", "late-exit"],
        S_CLOCK => &["", "jump-1min", "jump-8min", "jump-27min"],
        S_DROP => &["", "lost-with-sender"],
        _ => &[],
    };
    t.get(v).map(|s| s.to_string()).unwrap_or_else(|| v.to_string())
}

pub const P_NONE: u32 = 0;
pub const P_RANDOM: u32 = 1;
pub const P_PCT: u32 = 2;
pub const P_STARVE: u32 = 3;
pub const P_RR: u32 = 4;
pub const P_STALL: u32 = 5;

pub const V_NONE: u32 = 0;
pub const V_DEADLOCK: u32 = 1;
pub const V_STEPLIMIT: u32 = 2;
pub const V_TOOMANY: u32 = 3;
pub const V_UNSUPPORTED: u32 = 4;
pub const V_MPI: u32 = 5;
pub const V_INTERNAL: u32 = 6;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Dec {
    pub stream: u32,
    pub value: u32,
    pub index: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Race {
    pub pc: [u64; 2],
    pub addr: u64,
    pub tid: [u32; 2],
    pub wr: [u8; 2],
    pub at: [u8; 2],
    pub sz: [u8; 2],
    pub pad: [u8; 2],
    pub ev: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct File {
    pub name: [u8; 64],
    pub off: u64,
    pub len: u64,
}
#[repr(C)]
pub struct Proc {
    pub events: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub clock_ns: u64,
    pub nallocs: u64,
    pub nthreads: u32,
    pub nraces: u32,
    pub outlen: u32,
    pub errlen: u32,
    pub verdict: u32,
    pub exited: u32,
    pub status: i32,
    pub finalized: u32,
    pub nwrites: u32,
    pub nreads: u32,
    pub msg: [u8; 256],
    pub races: [Race; MAXRACES],
    pub out: [u8; OUTCAP],
    pub err: [u8; ERRCAP],
}
#[repr(C)]
pub struct Shm {
    pub magic: u64,
    pub seed: u64,
    pub rng_seed: u64,
    pub step_limit: u64,
    pub fair_after: u64,
    pub pct_len: u64,
    pub replay: u32,
    pub ncpu: u32,
    pub policy: u32,
    pub race: u32,
    pub p_sync: u32,
    pub p_acc: u32,
    pub nranks: u32,
    pub pct_depth: u32,
    pub rate: [u32; NSTREAMS],
    pub budget: [u32; NSTREAMS],
    pub kinds: [u32; NSTREAMS],
    pub nargs: u32,
    pub nfiles: u32,
    pub mpi_policy: u32,
    pub mpi_flags: u32,
    pub rayon_threads: u32,
    pub cpu_vary: u32,
    pub pipe: u32,
    pub late: u32,
    pub args: [u8; 2048],
    pub files: [File; MAXFILES],
    pub ndec_in: u64,
    pub ndec_out: u64,
    pub dec_overflow: u64,
    pub fired: [[u64; 16]; NSTREAMS],
    pub asked: [u64; NSTREAMS],
    pub net_actions: u64,
    pub net_hash: u64,
    pub net_msgs: u64,
    pub net_colls: u64,
    pub net_clock_ns: u64,
    pub crashed_rank: u32,
    pub ncrashed: u32,
    pub verdict: u32,
    pub pad2: u32,
    pub msg: [u8; 512],
    pub proc_: [Proc; MAXRANKS],
    pub filedata: [u8; FILECAP],
    pub dec_in: [Dec; DECCAP],
    pub dec_out: [Dec; DECCAP],
    pub log_len: u64,
    pub trace_len: u64,
    pub log: [u8; LOGCAP],
    pub trace: [u8; TRACECAP],
    pub mpi: [u8; MPICAP],
}
