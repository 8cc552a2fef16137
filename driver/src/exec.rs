//! Running scenarios in the fork servers.
#![allow(dead_code)]
use crate::scenario::*;
use crate::shm::*;
use std::collections::HashMap;
use std::os::fd::{FromRawFd, OwnedFd, AsRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

pub struct RankOut {
    pub status: i32,
    pub out: String,
    pub err: String,
    pub events: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub clock_ns: u64,
    pub nallocs: u64,
    pub nthreads: u32,
    pub verdict: u32,
    pub msg: String,
    pub finalized: u32,
    pub races: Vec<Race>,
    pub nwrites: u32,
}
pub struct Outcome {
    pub ranks: Vec<RankOut>,
    pub verdict: u32,
    pub msg: String,
    pub decs: Vec<Dec>,
    pub fired: [[u64; 16]; NSTREAMS],
    pub asked: [u64; NSTREAMS],
    pub net_actions: u64,
    pub net_hash: u64,
    pub net_msgs: u64,
    pub net_colls: u64,
    pub net_clock_ns: u64,
    pub ncrashed: u32,
    pub crashed_rank: u32,
    pub log: Vec<u8>,
    pub trace: String,
    pub timeout: bool,
    pub dec_overflow: bool,
    /// so large that taking long proves nothing
    pub large: bool,
}
impl Outcome {
    pub fn fired_total(&self, s: usize) -> u64 {
        self.fired[s].iter().sum()
    }
    /// more decisions than can be recorded, more threads than can be simulated, or a large instance
    /// that takes long: counted as such
    pub fn not_judged(&self) -> bool {
        let long = self.timeout || self.verdict == V_STEPLIMIT || self.ranks.iter().any(|r| r.verdict == V_STEPLIMIT);
        self.dec_overflow || self.large && long || self.ranks.iter().any(|r| r.verdict == V_TOOMANY)
    }
    /// identifies the execution
    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        for r in &self.ranks {
            (r.status, &r.out, r.events, r.switches, r.sched_hash, r.verdict).hash(&mut h);
        }
        (self.net_hash, self.net_actions, self.verdict, self.timeout, self.fired).hash(&mut h);
        h.finish()
    }
    pub fn events(&self) -> u64 {
        self.ranks.iter().map(|r| r.events).sum()
    }
    pub fn switches(&self) -> u64 {
        self.ranks.iter().map(|r| r.switches).sum()
    }
}

struct Map(*mut Shm);
unsafe impl Send for Map {}

struct Server {
    child: Child,
    ctl: OwnedFd,
}
pub struct Runner {
    bin_dir: String,
    cpu: usize,
    fd: OwnedFd,
    map: Map,
    servers: HashMap<String, Server>,
    pub timeout_ms: i32,
    pub runs: u64,
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

impl Runner {
    pub fn new(bin_dir: &str, cpu: usize) -> Runner {
        unsafe {
            let fd = libc::memfd_create(c"sim".as_ptr(), 0);
            assert!(fd >= 0, "memfd_create");
            let size = std::mem::size_of::<Shm>();
            assert_eq!(libc::ftruncate(fd, size as i64), 0);
            let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            (*(p as *mut Shm)).magic = MAGIC;
            (*(p as *mut Shm)).pad2 = size as u32;
            Runner {
                bin_dir: bin_dir.into(),
                cpu,
                fd: OwnedFd::from_raw_fd(fd),
                map: Map(p as *mut Shm),
                servers: HashMap::new(),
                timeout_ms: 30_000,
                runs: 0,
            }
        }
    }
    fn server(&mut self, prog: &str) -> Result<&mut Server, String> {
        if !self.servers.contains_key(prog) {
            let mut sv = [0i32; 2];
            unsafe {
                assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()), 0);
            }
            let (ours, theirs) = (sv[0], sv[1]);
            let shm = self.fd.as_raw_fd();
            let mut c = Command::new(format!("{}/{}", self.bin_dir, prog));
            c.args(std::iter::repeat("x").take(40))
                .env_clear()
                .env("SIM_SHM_FD", "198")
                .env("SIM_CTL_FD", "199")
                .env("SIM_CPU", self.cpu.to_string())
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::inherit());
            unsafe {
                c.pre_exec(move || {
                    libc::dup2(shm, 198);
                    libc::dup2(theirs, 199);
                    // addresses are part of the execution
                    libc::personality(0x0040000);
                    Ok(())
                });
            }
            let child = c.spawn().map_err(|e| format!("cannot start {prog}: {e}"))?;
            unsafe { libc::close(theirs) };
            let ctl = unsafe { OwnedFd::from_raw_fd(ours) };
            let mut s = Server { child, ctl };
            if wait_byte(&s.ctl, 60_000) != Some(b'r') {
                let _ = s.child.kill();
                return Err(format!("{prog} does not start"));
            }
            self.servers.insert(prog.into(), s);
        }
        Ok(self.servers.get_mut(prog).unwrap())
    }
    /// decs: None = search with the scenario's seeds; Some = replay exactly these decisions
    pub fn run(&mut self, sc: &Scenario, decs: Option<&[Dec]>) -> Result<Outcome, String> {
        self.server(&sc.prog)?;
        self.runs += 1;
        let s = unsafe { &mut *self.map.0 };
        let m = &sc.sim;
        s.seed = m.seed;
        s.rng_seed = m.rng_seed;
        s.step_limit = m.step_limit;
        s.fair_after = m.fair_after;
        s.pct_len = m.pct_len;
        s.pct_depth = m.pct_depth;
        s.replay = decs.is_some() as u32;
        s.ncpu = m.ncpu;
        s.policy = m.policy;
        s.race = m.race;
        s.p_sync = m.p_sync;
        s.p_acc = m.p_acc;
        s.nranks = m.nranks;
        s.mpi_policy = m.mpi_policy;
        s.mpi_flags = m.mpi_flags;
        s.rayon_threads = m.rayon_threads;
        s.cpu_vary = m.cpu_vary;
        s.pipe = m.pipe;
        s.late = m.late;
        s.rate = [0; NSTREAMS];
        s.budget = [0; NSTREAMS];
        s.kinds = [0; NSTREAMS];
        for &(st, rate, budget, kinds) in &m.faults {
            s.rate[st] = rate;
            s.budget[st] = budget;
            s.kinds[st] = kinds;
        }
        let args = sc.args();
        s.nargs = args.len() as u32;
        let mut o = 0;
        for a in &args {
            s.args[o..o + a.len()].copy_from_slice(a.as_bytes());
            s.args[o + a.len()] = 0;
            o += a.len() + 1;
        }
        let files = sc.files();
        s.nfiles = files.len() as u32;
        let mut o = 0;
        for (i, (name, data)) in files.iter().enumerate() {
            s.files[i].name = [0; 64];
            s.files[i].name[..name.len()].copy_from_slice(name.as_bytes());
            s.files[i].off = o as u64;
            s.files[i].len = data.len() as u64;
            if o + data.len() > FILECAP {
                return Err("files too big".into());
            }
            s.filedata[o..o + data.len()].copy_from_slice(data);
            o += data.len();
        }
        let decs = decs.unwrap_or(&[]);
        s.ndec_in = decs.len() as u64;
        s.dec_in[..decs.len()].copy_from_slice(decs);
        s.ndec_out = 0;
        s.dec_overflow = 0;
        s.fired = [[0; 16]; NSTREAMS];
        s.asked = [0; NSTREAMS];
        s.net_actions = 0;
        s.net_hash = 0;
        s.net_msgs = 0;
        s.net_colls = 0;
        s.net_clock_ns = 0;
        s.crashed_rank = 0;
        s.ncrashed = 0;
        s.verdict = 0;
        s.msg[0] = 0;
        s.log_len = 0;
        s.trace_len = 0;
        let nproc = m.nranks.max(1) as usize;
        for p in s.proc_[..nproc].iter_mut() {
            p.events = 0;
            p.switches = 0;
            p.sched_hash = 0;
            p.clock_ns = 0;
            p.nallocs = 0;
            p.nthreads = 0;
            p.nraces = 0;
            p.outlen = 0;
            p.errlen = 0;
            p.verdict = 0;
            p.exited = 0;
            p.status = 0;
            p.finalized = 0;
            p.nwrites = 0;
            p.nreads = 0;
            p.msg[0] = 0;
        }
        let timeout = self.timeout_ms;
        let srv = self.servers.get_mut(&sc.prog).unwrap();
        let b = b'g';
        let w = unsafe { libc::write(srv.ctl.as_raw_fd(), &b as *const u8 as *const _, 1) };
        if w != 1 {
            return Err("the server is gone".into());
        }
        let mut timed_out = false;
        match wait_byte(&srv.ctl, timeout) {
            Some(b'd') => {}
            Some(_) => {
                self.servers.remove(&sc.prog);
                return Err(format!("{}: the server died during a run", sc.prog));
            }
            None => {
                timed_out = true;
                let mut srv = self.servers.remove(&sc.prog).unwrap();
                let _ = srv.child.kill();
                let _ = srv.child.wait();
            }
        }
        let ranks = s.proc_[..nproc]
            .iter()
            .map(|p| RankOut {
                status: p.status,
                out: String::from_utf8_lossy(&p.out[..(p.outlen as usize).min(OUTCAP)]).into_owned(),
                err: String::from_utf8_lossy(&p.err[..(p.errlen as usize).min(ERRCAP)]).into_owned(),
                events: p.events,
                switches: p.switches,
                sched_hash: p.sched_hash,
                clock_ns: p.clock_ns,
                nallocs: p.nallocs,
                nthreads: p.nthreads,
                verdict: p.verdict,
                msg: cstr(&p.msg),
                finalized: p.finalized,
                races: p.races[..(p.nraces as usize).min(MAXRACES)].to_vec(),
                nwrites: p.nwrites,
            })
            .collect();
        let mut d = s.dec_out[..(s.ndec_out as usize).min(DECCAP)].to_vec();
        d.sort_by_key(|x| (x.stream, x.index));
        Ok(Outcome {
            ranks,
            verdict: s.verdict,
            msg: cstr(&s.msg),
            decs: d.into_iter().collect(),
            fired: s.fired,
            asked: s.asked,
            net_actions: s.net_actions,
            net_hash: s.net_hash,
            net_msgs: s.net_msgs,
            net_colls: s.net_colls,
            net_clock_ns: s.net_clock_ns,
            ncrashed: s.ncrashed,
            crashed_rank: s.crashed_rank,
            log: s.log[..(s.log_len as usize).min(LOGCAP)].to_vec(),
            trace: String::from_utf8_lossy(&s.trace[..(s.trace_len as usize).min(TRACECAP)]).into_owned(),
            timeout: timed_out,
            dec_overflow: s.dec_overflow > 0,
            large: sc.sim.step_limit > 1_000_000_000,
        })
    }
}
impl Drop for Runner {
    fn drop(&mut self) {
        for (_, mut s) in self.servers.drain() {
            let _ = s.child.kill();
            let _ = s.child.wait();
        }
    }
}
/// None: nothing within the time; Some(0): end of file
fn wait_byte(fd: &OwnedFd, ms: i32) -> Option<u8> {
    let end = std::time::Instant::now() + std::time::Duration::from_millis(ms as u64);
    loop {
        let left = end.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
        let mut p = libc::pollfd { fd: fd.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, left) };
        if r == 0 {
            return None;
        }
        if r < 0 {
            continue;
        }
        let mut b = 0u8;
        let n = unsafe { libc::read(fd.as_raw_fd(), &mut b as *mut u8 as *mut _, 1) };
        return Some(if n == 1 { b } else { 0 });
    }
}
