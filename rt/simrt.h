/* Shared between the simulation runtime (linked into the program under test)
 * and the driver (driver/src/shm.rs mirrors this layout: keep both in step). */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>

#define SIM_MAGIC 0x57414c4b59534d32ull
#define SIM_MAXT 120        /* simulated threads per process */
#define SIM_MAXRANKS 16
#define SIM_MAXFILES 8
#define SIM_MAXRACES 32
#define SIM_NSTREAMS 16
#define SIM_OUTCAP (1u << 22)
#define SIM_ERRCAP (1u << 12)
#define SIM_FILECAP (1u << 24)
#define SIM_DECCAP (1u << 22)
#define SIM_MPICAP (1u << 28)
#define SIM_LOGCAP (1u << 20)   /* point-to-point payloads, for the oracles */
#define SIM_TRACECAP (1u << 17) /* what happened on the network, for people */

enum { /* decision streams */
  S_SCHED = 0, /* which thread runs next; index = event number */
  S_FUTEX,     /* 1 spurious wake-up, 2 EINTR */
  S_TCREATE,   /* 1 EAGAIN */
  S_MALLOC,    /* 1 NULL */
  S_OPEN,      /* 1 ENOENT 2 EACCES 3 EMFILE 4 EIO 5 EINTR */
  S_READ,      /* 1 EINTR 2 one byte 3 half 4 EIO 5 end of file from here on */
  S_WRITE,     /* 1 EINTR 2 one byte 3 half 4 ENOSPC 5 EPIPE 6 EIO 7 EAGAIN 8 killed */
  S_CPU,       /* 1 detection of the CPU count fails */
  S_NET,       /* MPI: which enabled action happens next; index = action number */
  S_EAGER,     /* MPI: 1 = this standard send waits for its receiver */
  S_CRASH,     /* MPI: 1 = the process dies before this call */
  S_REDUCE,    /* MPI: order of the operands of a reduction */
  S_COLL,      /* MPI: 1 = this process leaves the collective as late as possible */
  S_CLOCK,     /* 1.. = jump of the clock */
  S_DROP       /* MPI: 1 = message of a dead process is lost */
};

enum { /* sched policies */
  P_NONE = 0, P_RANDOM, P_PCT, P_STARVE, P_RR, P_STALL
};

enum { /* verdicts of the runtime */
  V_NONE = 0, V_DEADLOCK, V_STEPLIMIT, V_TOOMANY, V_UNSUPPORTED, V_MPI, V_INTERNAL
};

typedef struct { uint32_t stream, value; uint64_t index; } sim_dec;

typedef struct {
  uint64_t pc[2]; uint64_t addr; uint32_t tid[2]; uint8_t wr[2], at[2], sz[2]; uint8_t pad[2]; uint64_t ev;
} sim_race;

typedef struct { char name[64]; uint64_t off, len; } sim_file;

typedef struct { /* one per process (rank) */
  uint64_t events, switches, sched_hash, clock_ns, nallocs;
  uint32_t nthreads, nraces, outlen, errlen;
  uint32_t verdict, exited; /* exited: wait status valid */
  int32_t status; uint32_t finalized;
  uint32_t nwrites, nreads;
  char msg[256];
  sim_race races[SIM_MAXRACES];
  char out[SIM_OUTCAP];
  char err[SIM_ERRCAP];
} sim_proc;

typedef struct {
  /* set by the driver */
  uint64_t magic, seed, rng_seed;
  uint64_t step_limit, fair_after, pct_len;
  uint32_t replay, ncpu, policy, race;
  uint32_t p_sync, p_acc, nranks, pct_depth;
  uint32_t rate[SIM_NSTREAMS];    /* probability of a fault, of 65536 */
  uint32_t budget[SIM_NSTREAMS];  /* at most that many */
  uint32_t kinds[SIM_NSTREAMS];   /* bit mask of allowed values */
  uint32_t nargs, nfiles, mpi_policy, mpi_flags;
  uint32_t rayon_threads, cpu_vary; /* RAYON_NUM_THREADS, or 0; processes see different numbers of CPUs */
  uint32_t pipe;                    /* files are pipes: no size, no seeking */
  uint32_t late;                    /* memory runs out only once threads or MPI are in use */
  char args[2048];
  sim_file files[SIM_MAXFILES];
  uint64_t ndec_in;
  /* set by the runtime */
  uint64_t ndec_out;
  uint64_t dec_overflow;
  uint64_t fired[SIM_NSTREAMS][16]; /* how often which value */
  uint64_t asked[SIM_NSTREAMS];
  uint64_t net_actions, net_hash, net_msgs, net_colls, net_clock_ns;
  uint32_t crashed_rank, ncrashed;
  uint32_t verdict; uint32_t pad2;
  char msg[512];
  sim_proc proc[SIM_MAXRANKS];
  uint8_t filedata[SIM_FILECAP];
  sim_dec dec_in[SIM_DECCAP];
  sim_dec dec_out[SIM_DECCAP];
  uint64_t log_len, trace_len;
  uint8_t log[SIM_LOGCAP];
  char trace[SIM_TRACECAP];
  uint8_t mpi[SIM_MPICAP];
} sim_shm;

extern sim_shm *sim_S;
extern sim_proc *sim_P; /* of this process */
extern int sim_rank;

uint32_t sim_decide(uint32_t stream, uint64_t index, uint32_t nvalues);
uint64_t sim_rand64(uint64_t *st);
void sim_fail(int verdict, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
/* implemented by simmpi.c if linked */
int sim_mpi_run(void) __attribute__((weak));
void sim_mpi_child_exit(void) __attribute__((weak));
#endif
