/* Simulation runtime, linked into the (ThreadSanitizer-instrumented) program under test.
 *
 * - implements the __tsan_* callbacks: every memory access and atomic of the program is an
 *   event at which the seeded scheduler may switch threads; a vector clock race detector
 *   looks at the same events
 * - interposes the libc calls through which the program meets its environment: threads,
 *   futexes, clocks, random numbers, the CPU count, files, standard output, memory
 * - is the fork server of the driver: main() only starts in the forked children
 */
#define _GNU_SOURCE
#include "simrt.h"
#include <asm/prctl.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

sim_shm *sim_S;
sim_proc *sim_P;
int sim_rank;

static int g_on;               /* this process is a simulated one, and simulation has begun */
static uint64_t g_ev;          /* events so far */
static uint64_t g_next_stop = ~0ull; /* next event at which a plain access may switch */
static uint64_t g_pol_rng;     /* policy random state */

/* ------------------------------------------------------------------ raw system calls */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long fix(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

/* ------------------------------------------------------------------ random */
uint64_t sim_rand64(uint64_t *st) {
  uint64_t z = (*st += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a ^ (b * 0x9e3779b97f4a7c15ull);
  return sim_rand64(&s);
}
static uint64_t geom(uint64_t mean) { /* >= 1, roughly geometric */
  if (mean <= 1) return 1;
  uint64_t n = 1;
  /* sum of bits: draw u in (0,1], -ln(u)*mean by a cheap table-free approximation */
  double u = ((sim_rand64(&g_pol_rng) >> 11) + 1) * (1.0 / 9007199254740993.0);
  /* ln via frexp series is overkill; iterate halving */
  double l = 0;
  while (u < 0.5) {
    u *= 2;
    l += 0.69314718055994530942;
  }
  double t = 1 - u; /* t in [0,0.5] */
  l += t + t * t / 2 + t * t * t / 3 + t * t * t * t / 4 + t * t * t * t * t / 5;
  n += (uint64_t)(l * (double)mean);
  return n;
}

/* ------------------------------------------------------------------ failing */
static void put_out(const char *s) { RAW(SYS_write, 2, s, strlen(s)); }

void sim_fail(int verdict, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char buf[256];
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (sim_P) {
    if (!sim_P->verdict) {
      sim_P->verdict = (uint32_t)verdict;
      memcpy(sim_P->msg, buf, sizeof buf);
    }
    sim_P->events = g_ev;
  } else {
    put_out("sim: ");
    put_out(buf);
    put_out("\n");
  }
  RAW(SYS_exit_group, 77);
  __builtin_unreachable();
}

/* ------------------------------------------------------------------ decisions */
static void record(uint32_t stream, uint64_t index, uint32_t value) {
  if (stream != S_SCHED && stream != S_NET && value < 16) sim_S->fired[stream][value]++;
  if (sim_S->ndec_out < SIM_DECCAP)
    sim_S->dec_out[sim_S->ndec_out++] = (sim_dec){stream, value, index};
  else
    sim_S->dec_overflow++;
}
/* first recorded decision at or after (stream, index) */
static uint64_t dec_lower(uint32_t stream, uint64_t index) {
  uint64_t lo = 0, hi = sim_S->ndec_in;
  while (lo < hi) {
    uint64_t m = (lo + hi) / 2;
    const sim_dec *d = &sim_S->dec_in[m];
    if (d->stream < stream || (d->stream == stream && d->index < index))
      lo = m + 1;
    else
      hi = m;
  }
  return lo;
}
static int dec_find(uint32_t stream, uint64_t index, uint32_t *value) {
  uint64_t i = dec_lower(stream, index);
  if (i < sim_S->ndec_in && sim_S->dec_in[i].stream == stream && sim_S->dec_in[i].index == index) {
    *value = sim_S->dec_in[i].value;
    return 1;
  }
  return 0;
}
/* a fault decision: 0 = nothing happens, else one of the allowed values below nvalues */
uint32_t sim_decide(uint32_t stream, uint64_t index, uint32_t nvalues) {
  sim_shm *S = sim_S;
  S->asked[stream]++;
  uint32_t v = 0;
  if (S->replay) {
    if (!dec_find(stream, index, &v) || v >= nvalues) v = 0;
    if (v) record(stream, index, v);
    return v;
  }
  if (!S->rate[stream] || !S->budget[stream]) return 0;
  uint64_t st = mix(S->seed, ((uint64_t)stream << 48) ^ index);
  if ((sim_rand64(&st) & 65535) >= S->rate[stream]) return 0;
  uint32_t k[16], nk = 0;
  for (uint32_t i = 1; i < nvalues && i < 16; i++)
    if (S->kinds[stream] >> i & 1) k[nk++] = i;
  if (!nk) return 0;
  v = k[sim_rand64(&st) % nk];
  S->budget[stream]--;
  record(stream, index, v);
  return v;
}
int sim_late; /* threads or MPI are in use */
static uint32_t fault(uint32_t stream, uint32_t nvalues) {
  return sim_decide(stream, sim_S->asked[stream], nvalues);
}

/* ------------------------------------------------------------------ threads */
enum { T_FREE = 0, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DEAD };
typedef struct {
  int state;
  uint32_t *sem; /* 1 once the real thread is parked */
  void *sp;     /* where it goes on */
  uint64_t fs;  /* its thread pointer */
  uint32_t *faddr;
  uint32_t fbits;
  uint64_t deadline; /* 0: none */
  int timed_out;
  int joining;
  int started;
  uint64_t prio;
  uint64_t run_since;
  pthread_t pt;
  uintptr_t stk_lo, stk_hi;
  void *(*fn)(void *);
  void *arg, *ret;
  int ending, detached;
  uint32_t vc[SIM_MAXT], frel[SIM_MAXT], facq[SIM_MAXT];
  int has_facq, has_frel;
} thr;
static thr T[SIM_MAXT];
static int nT;
static thr *cur;
static int curid;
static pthread_key_t end_key;
static uint32_t n_yield_mark;

/* One real thread, the first, executes all simulated ones: it takes over the stack and the thread
 * pointer of whoever runs. Every simulated thread is created as a real one, so that libc has set it
 * up, and is parked for ever before its first instruction. A switch costs nanoseconds that way. */
static int have_fsgs;
#define SIM_CREATIONS 4000 /* slots of dead threads are used again, what the parked real ones stand on is not */
static char park_stk[SIM_CREATIONS][1024] __attribute__((aligned(64)));
static uint32_t park_sem[SIM_CREATIONS];
static int creations;
void sim_ctx_switch(void **save, void *load);
void sim_ctx_park(void **save, void *stack, thr *t);
__asm__(".text\n"
        ".type sim_ctx_switch,@function\n"
        "sim_ctx_switch:\n"
        "  push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
        "  mov %rsp,(%rdi)\n"
        "  mov %rsi,%rsp\n"
        "  pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n"
        "  ret\n"
        ".type sim_ctx_park,@function\n"
        "sim_ctx_park:\n"
        "  push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
        "  mov %rsp,(%rdi)\n"
        "  mov %rsi,%rsp\n"
        "  mov %rdx,%rdi\n"
        "  call sim_park_loop\n"
        "  hlt\n");
__attribute__((used)) void sim_park_loop(thr *t) {
  uint32_t *sem = t->sem;
  __atomic_store_n(sem, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  for (;;) RAW(SYS_futex, sem, FUTEX_WAIT_PRIVATE, 1, 0, 0, 0);
}
static uint64_t get_fs(void) {
  uint64_t x;
  if (have_fsgs)
    __asm__ volatile("rdfsbase %0" : "=r"(x));
  else
    RAW(SYS_arch_prctl, ARCH_GET_FS, &x);
  return x;
}
static void set_fs(uint64_t x) {
  if (have_fsgs)
    __asm__ volatile("wrfsbase %0" : : "r"(x) : "memory");
  else
    RAW(SYS_arch_prctl, ARCH_SET_FS, x);
}

/* where the code under test is, generic code of libraries made for it included */
static struct { uint64_t lo, hi; } own[4096];
static uint32_t own_n;
static int own_cmp(const void *a, const void *b) {
  uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b;
  return x < y ? -1 : x > y;
}
static void own_init(void) {
  long fd = RAW(SYS_open, "/proc/self/exe", O_RDONLY | O_CLOEXEC);
  struct stat st;
  if (fd < 0) return;
  if (RAW(SYS_fstat, fd, &st) == 0) {
    char *m = (char *)RAW(SYS_mmap, 0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    if ((long)m >= 0 || (long)m < -4096) {
      Elf64_Ehdr *e = (Elf64_Ehdr *)m;
      Elf64_Shdr *h = (Elf64_Shdr *)(m + e->e_shoff);
      for (int i = 0; i < e->e_shnum; i++)
        if (h[i].sh_type == SHT_SYMTAB) {
          Elf64_Sym *y = (Elf64_Sym *)(m + h[i].sh_offset);
          const char *str = m + h[h[i].sh_link].sh_offset;
          for (uint64_t j = 0; j < h[i].sh_size / sizeof *y; j++)
            if (ELF64_ST_TYPE(y[j].st_info) == STT_FUNC && y[j].st_size && own_n < 4096 &&
                strstr(str + y[j].st_name, "5walky")) {
              own[own_n].lo = y[j].st_value;
              own[own_n++].hi = y[j].st_value + y[j].st_size;
            }
        }
      RAW(SYS_munmap, m, st.st_size);
    }
  }
  RAW(SYS_close, fd);
  qsort(own, own_n, sizeof *own, own_cmp);
}
static int is_own(uint64_t pc) {
  uint32_t a = 0, b = own_n;
  while (a < b) {
    uint32_t m = (a + b) / 2;
    if (own[m].hi < pc) a = m + 1; /* pc is a return address */
    else b = m;
  }
  return a < own_n && own[a].lo < pc;
}

/* policy state */
static uint64_t pct_points[64];
static uint32_t pct_n, pct_i;
static uint64_t pct_low;
static uint32_t starve_mask;
/* P_STALL: a thread that reaches one of a random set of code sites stops there for long */
static uint32_t stalls_left, stall_mod, stall_q, stall_own, stall_long;
static uint64_t stall_ord;
static int stall_tid;
static uint64_t stall_until[SIM_MAXT];
static uint64_t starve_from, starve_to;
static uint64_t clock_base = 1000000000ull * 1700000000ull, clock_skip;

static uint64_t sim_clock(void) { return clock_base + clock_skip + g_ev * 3; }

#define FORCED 100000
static void rearm(void) {
  /* next event at which a plain access stops for a possible switch */
  if (sim_S->replay) {
    uint64_t i = dec_lower(S_SCHED, ((uint64_t)sim_rank << 56) | (g_ev + 1));
    g_next_stop = ~0ull;
    if (i < sim_S->ndec_in && sim_S->dec_in[i].stream == S_SCHED &&
        (sim_S->dec_in[i].index >> 56) == (uint64_t)sim_rank)
      g_next_stop = sim_S->dec_in[i].index & 0x00ffffffffffffffull;
  } else {
    switch (sim_S->policy) {
    case P_RANDOM:
    case P_STARVE:
    case P_STALL:
      g_next_stop = sim_S->p_acc ? g_ev + geom(sim_S->p_acc) : ~0ull;
      break;
    case P_RR:
      g_next_stop = g_ev + (sim_S->p_acc ? sim_S->p_acc : 1000);
      break;
    case P_PCT:
      while (pct_i < pct_n && pct_points[pct_i] <= g_ev) pct_i++;
      g_next_stop = pct_i < pct_n ? pct_points[pct_i] : ~0ull;
      break;
    default: g_next_stop = ~0ull;
    }
  }
  if (!sim_S->replay && g_ev >= sim_S->fair_after) g_next_stop = g_ev + 2000;
  uint64_t hard = cur->run_since + FORCED; /* nobody keeps the CPU for ever */
  if (g_next_stop > hard) g_next_stop = hard;
  if (g_next_stop > sim_S->step_limit) g_next_stop = sim_S->step_limit;
  for (int i = 0; i < nT; i++)
    if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline) {
      uint64_t now = sim_clock(), e = T[i].deadline > now ? (T[i].deadline - now + 2) / 3 : 1;
      if (g_next_stop > g_ev + e) g_next_stop = g_ev + e;
    }
  if (g_next_stop <= g_ev) g_next_stop = g_ev + 1;
}

static void policy_init(void) {
  g_pol_rng = mix(sim_S->seed, 0x5eed0000u + (uint64_t)sim_rank);
  pct_n = 0;
  pct_i = 0;
  pct_low = 1000;
  if (sim_S->policy == P_PCT) {
    pct_n = sim_S->pct_depth > 64 ? 64 : sim_S->pct_depth;
    for (uint32_t i = 0; i < pct_n; i++)
      pct_points[i] = 1 + sim_rand64(&g_pol_rng) % (sim_S->pct_len ? sim_S->pct_len : 1);
    for (uint32_t i = 1; i < pct_n; i++)
      for (uint32_t j = i; j && pct_points[j - 1] > pct_points[j]; j--) {
        uint64_t t = pct_points[j];
        pct_points[j] = pct_points[j - 1];
        pct_points[j - 1] = t;
      }
  }
  starve_mask = (uint32_t)sim_rand64(&g_pol_rng) | (1u << (1 + sim_rand64(&g_pol_rng) % 6));
  starve_mask &= (uint32_t)sim_rand64(&g_pol_rng) | 2u;
  starve_from = sim_rand64(&g_pol_rng) % (sim_S->pct_len ? sim_S->pct_len : 1);
  stall_tid = -1;
  if (sim_S->policy == P_STALL) {
    static const uint32_t mods[] = {2, 4, 8, 16, 32, 64}, own_mods[] = {1, 2, 2, 4, 4, 8}, qs[] = {1, 1, 2, 4, 12, 40};
    stalls_left = 1 + sim_S->pct_depth % 3;
    stall_own = own_n && sim_rand64(&g_pol_rng) % 3; /* often only at sites in the code under test */
    stall_mod = (stall_own ? own_mods : mods)[sim_rand64(&g_pol_rng) % 6];
    stall_q = qs[sim_rand64(&g_pol_rng) % 6];
    stall_long = 15;
    if (sim_S->pct_depth >= 16) { /* one long stall somewhere in the code under test */
      stalls_left = 1;
      stall_own = own_n != 0;
      stall_mod = own_mods[2 + sim_rand64(&g_pol_rng) % 4];
      stall_q = qs[sim_rand64(&g_pol_rng) % 4];
      stall_long = 5;
      if (sim_rand64(&g_pol_rng) % 4) { /* at one step of one thread */
        stall_tid = (int)(sim_rand64(&g_pol_rng) % (sim_S->ncpu + 1));
        stall_ord = 1 + sim_rand64(&g_pol_rng) % (1 + (sim_rand64(&g_pol_rng) >> (54 + sim_rand64(&g_pol_rng) % 8)));
      }
    }
  }
  starve_to = starve_from + (1ull << (8 + sim_rand64(&g_pol_rng) % 14));
}
static uint64_t new_prio(void) { return 1000000 + sim_rand64(&g_pol_rng) % 1000000; }

static void wake_timed(void) {
  uint64_t now = sim_clock();
  for (int i = 0; i < nT; i++)
    if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && T[i].deadline <= now) {
      T[i].state = T_RUN;
      T[i].timed_out = 1;
      T[i].deadline = 0;
      T[i].faddr = NULL;
    }
}

static int runnable_list(int *l) {
  int n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_RUN) l[n++] = i;
  return n;
}

static void switch_to(int to) {
  thr *me = cur;
  if (to == curid) return;
  sim_P->switches++;
  sim_P->sched_hash = mix(sim_P->sched_hash, (g_ev << 8) | (uint64_t)to);
  cur = &T[to];
  curid = to;
  cur->run_since = g_ev;
  me->fs = get_fs();
  set_fs(cur->fs);
  sim_ctx_switch(&me->sp, cur->sp); /* never comes back in a thread that is finished */
}

/* why: 0 possible preemption at a plain access, 1 at a synchronising operation (the caller has
 * counted the event), 2 yield, 3 the current thread cannot go on. Event numbers must not depend
 * on how often the policy asks for a decision: replay only asks where something happened. */
static void schedule(int why) {
  if (why >= 2) g_ev++;
  if (unlikely(g_ev >= sim_S->step_limit))
    sim_fail(V_STEPLIMIT, "no end after %llu events", (unsigned long long)g_ev);
  int l[SIM_MAXT], n;
  wake_timed();
  n = runnable_list(l);
  if (!n) {
    uint64_t d = ~0ull;
    for (int i = 0; i < nT; i++)
      if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && T[i].deadline < d) d = T[i].deadline;
    if (d == ~0ull) {
      char b[200];
      int o = 0;
      for (int i = 0; i < nT && o < 150; i++)
        if (T[i].state != T_DEAD)
          o += snprintf(b + o, sizeof b - (size_t)o, " t%d:%s", i,
                        T[i].state == T_FUTEX ? "futex" : T[i].state == T_JOIN ? "join" : "?");
      sim_fail(V_DEADLOCK, "every thread waits:%s", b);
    }
    clock_skip += d - sim_clock();
    wake_timed();
    n = runnable_list(l);
  }
  /* the default: go on, or if that is impossible (or on a yield) the next in the circle */
  int dflt = curid;
  if (why >= 2)
    for (int i = 1; i <= nT; i++) {
      int c = (curid + i) % nT;
      if (T[c].state == T_RUN) {
        dflt = c;
        break;
      }
    }
  int forced_fair = why < 2 && g_ev - cur->run_since >= FORCED;
  if (forced_fair) {
    cur->run_since = g_ev;
    for (int i = 1; i <= nT; i++) {
      int c = (curid + i) % nT;
      if (T[c].state == T_RUN) {
        dflt = c;
        break;
      }
    }
  }
  int pick = dflt;
  uint64_t index = ((uint64_t)sim_rank << 56) | g_ev;
  if (sim_S->replay) {
    uint32_t v;
    if (dec_find(S_SCHED, index, &v) && v < (uint32_t)nT && T[v].state == T_RUN) pick = (int)v;
  } else if (n > 1 && !(g_ev >= sim_S->fair_after || (forced_fair && sim_S->policy != P_STALL))) {
    switch (sim_S->policy) {
    case P_NONE: break;
    case P_RR:
      if (why == 0)
        for (int i = 1; i <= nT; i++) {
          int c = (curid + i) % nT;
          if (T[c].state == T_RUN) {
            pick = c;
            break;
          }
        }
      break;
    case P_PCT: {
      if (why == 0 || why == 1) {
        while (pct_i < pct_n && pct_points[pct_i] <= g_ev) {
          cur->prio = pct_low--;
          pct_i++;
        }
      }
      int best = -1;
      for (int i = 0; i < n; i++) {
        if (why == 2 && l[i] == curid) continue;
        if (best < 0 || T[l[i]].prio > T[best].prio) best = l[i];
      }
      if (why == 2 && ++n_yield_mark % 64 == 0) /* spinning at high priority: let others in */
        cur->prio = pct_low--;
      pick = best;
      break;
    }
    case P_STARVE: {
      int k[SIM_MAXT], m = 0;
      int in = g_ev >= starve_from && g_ev < starve_to;
      for (int i = 0; i < n; i++)
        if (!(in && l[i] < 32 && (starve_mask >> l[i] & 1)) && !(why == 2 && l[i] == curid)) k[m++] = l[i];
      if (m) {
        if (why < 2 && T[curid].state == T_RUN && !(in && curid < 32 && (starve_mask >> curid & 1)) && why == 1 &&
            sim_S->p_sync > 1 && sim_rand64(&g_pol_rng) % sim_S->p_sync)
          pick = curid;
        else
          pick = k[sim_rand64(&g_pol_rng) % (uint64_t)m];
      }
      break;
    }
    case P_STALL: {
      int k[SIM_MAXT], m = 0;
      for (int i = 0; i < n; i++)
        if (stall_until[l[i]] <= g_ev && !(why < 3 && l[i] == curid)) k[m++] = l[i];
      if (m)
        pick = k[sim_rand64(&g_pol_rng) % (uint64_t)m];
      else if (why == 2 || T[curid].state != T_RUN || stall_until[curid] > g_ev) {
        /* nobody else could do anything: the stalled ones go on */
        memset(stall_until, 0, sizeof stall_until);
        for (int i = 0; i < n; i++)
          if (why >= 2 && l[i] == curid && n > 1) continue;
          else k[m++] = l[i];
        pick = k[sim_rand64(&g_pol_rng) % (uint64_t)m];
      } else
        pick = curid;
      break;
    }
    default: { /* P_RANDOM */
      int k[SIM_MAXT], m = 0;
      for (int i = 0; i < n; i++)
        if (!(why < 3 && l[i] == curid)) k[m++] = l[i];
      if (m) pick = k[sim_rand64(&g_pol_rng) % (uint64_t)m];
    }
    }
  } else if (n > 1 && g_ev >= sim_S->fair_after && why == 0 && g_ev - cur->run_since >= 2000) {
    for (int i = 1; i <= nT; i++) {
      int c = (curid + i) % nT;
      if (T[c].state == T_RUN) {
        pick = c;
        break;
      }
    }
  }
  if (pick != dflt) record(S_SCHED, index, (uint32_t)pick);
  switch_to(pick);
  rearm();
}
static void sync_point(uint64_t pc) { /* at a synchronising operation of the site pc: maybe switch */
  if (unlikely(g_ev >= g_next_stop)) {
    schedule(1);
    return;
  }
  if (nT < 2 || sim_S->replay) return;
  switch (sim_S->policy) {
  case P_RANDOM:
    if (sim_S->p_sync && sim_rand64(&g_pol_rng) % sim_S->p_sync == 0) schedule(1);
    break;
  case P_STARVE:
    if (sim_S->p_sync && sim_rand64(&g_pol_rng) % sim_S->p_sync == 0) schedule(1);
    break;
  case P_STALL:
    if (stalls_left && pc &&
        (stall_tid >= 0 ? curid == stall_tid && is_own(pc) && --stall_ord == 0
                        : mix(sim_S->seed, pc) % stall_mod == 0 && (!stall_own || is_own(pc)) &&
                              sim_rand64(&g_pol_rng) % stall_q == 0)) {
      uint64_t k = sim_rand64(&g_pol_rng) % 20;
      stalls_left--;
      stall_until[curid] = g_ev + (k < stall_long ? 1ull << (7 + k) : 4000000); /* the longest: until nobody else can go on */
      schedule(1);
    } else if (sim_S->p_sync && sim_rand64(&g_pol_rng) % sim_S->p_sync == 0)
      schedule(1);
    break;
  case P_PCT: {
    /* somebody of higher priority may have become runnable */
    for (int i = 0; i < nT; i++)
      if (i != curid && T[i].state == T_RUN && T[i].prio > cur->prio) {
        schedule(1);
        break;
      }
    break;
  }
  default: break;
  }
}

/* ------------------------------------------------------------------ shadow memory */
typedef struct {
  uint32_t clk;
  uint8_t tid, flags, mask, pad; /* flags: 1 write 2 atomic */
  uint64_t pc;
} slot;
typedef struct { slot s[4]; } cell;
typedef struct {
  cell c[512];
  uint32_t sync[512];
} spage;
#define SH_BITS 17
static struct { uint64_t key; spage *p; } *sh_tab; /* key = page number + 1 */
static char *sh_arena;
static size_t sh_used, sh_cap;
static struct { uint64_t key; spage *p; } sh_cache[64];

typedef struct { uint32_t vc[SIM_MAXT]; uint32_t next_free; } syncobj;
static syncobj *sy;
static uint32_t sy_n = 1, sy_free;
#define SY_CAP (1u << 20)

static spage *sh_page(uint64_t pn, int create) {
  unsigned ci = pn & 63;
  if (sh_cache[ci].key == pn + 1) return sh_cache[ci].p;
  uint64_t h = (pn * 0x9e3779b97f4a7c15ull) >> (64 - SH_BITS);
  while (sh_tab[h].key) {
    if (sh_tab[h].key == pn + 1) {
      sh_cache[ci].key = pn + 1;
      sh_cache[ci].p = sh_tab[h].p;
      return sh_tab[h].p;
    }
    h = (h + 1) & ((1u << SH_BITS) - 1);
  }
  if (!create) return NULL;
  if (sh_used + sizeof(spage) > sh_cap) sim_fail(V_INTERNAL, "shadow memory exhausted");
  spage *p = (spage *)(sh_arena + sh_used);
  sh_used += sizeof(spage);
  sh_tab[h].key = pn + 1;
  sh_tab[h].p = p;
  sh_cache[ci].key = pn + 1;
  sh_cache[ci].p = p;
  return p;
}
#ifdef SIM_DEBUG
static struct { uint64_t ev, a; int t, op, mo; uint32_t v[4]; } dbg[1<<16]; static unsigned dbgn;
#define DBG(o,A,m,V) do{ unsigned k_=dbgn++&65535; dbg[k_].ev=g_ev; dbg[k_].a=(uint64_t)(A); dbg[k_].t=curid; dbg[k_].op=o; dbg[k_].mo=m; memcpy(dbg[k_].v,(V),16);}while(0)
static void dbgdump(slot*o,uint64_t addr,uint64_t pc){ FILE*f=fopen("/tmp/dbg.txt","w"); if(!f)return;
 fprintf(f,"race addr %lx old tid %d clk %u pc %lx; cur %d vc %u own %u pc %lx\n",addr,o->tid,o->clk,o->pc,curid,cur->vc[o->tid],cur->vc[curid],pc);
 for(unsigned i=dbgn>60000?dbgn-60000:0;i<dbgn;i++){unsigned k=i&65535; fprintf(f,"%lu t%d op%c mo%d %lx | %u %u %u %u\n",dbg[k].ev,dbg[k].t,dbg[k].op,dbg[k].mo,dbg[k].a,dbg[k].v[0],dbg[k].v[1],dbg[k].v[2],dbg[k].v[3]);}
 fclose(f);}
#else
#define DBG(o,A,m,V)
#endif
static void race(slot *o, uint64_t addr, unsigned size, int wr, int at, uint64_t pc) {
  sim_proc *P = sim_P;
  for (uint32_t i = 0; i < P->nraces && i < SIM_MAXRACES; i++)
    if ((P->races[i].pc[0] == o->pc && P->races[i].pc[1] == pc) ||
        (P->races[i].pc[1] == o->pc && P->races[i].pc[0] == pc))
      return;
#ifdef SIM_DEBUG
  if(!P->nraces) {int g=g_on; g_on=0; dbgdump(o,addr,pc); g_on=g;}
#endif
  if (P->nraces < SIM_MAXRACES) {
    sim_race *r = &P->races[P->nraces];
    r->pc[0] = o->pc;
    r->pc[1] = pc;
    r->addr = addr;
    r->tid[0] = o->tid;
    r->tid[1] = (uint32_t)curid;
    r->wr[0] = o->flags & 1;
    r->wr[1] = (uint8_t)wr;
    r->at[0] = (o->flags >> 1) & 1;
    r->at[1] = (uint8_t)at;
    r->sz[0] = 0;
    r->sz[1] = (uint8_t)size;
    r->ev = g_ev;
    P->nraces++;
  }
}
static inline void access_cell(cell *c, uint64_t addr, uint8_t mask, int wr, int at, uint64_t pc) {
  const uint32_t myclk = cur->vc[curid];
  const uint8_t myflags = (uint8_t)((wr ? 1 : 0) | (at ? 2 : 0));
  int victim = -1, old = -1;
  for (int i = 0; i < 4; i++) {
    slot *s = &c->s[i];
    if (!s->clk) {
      if (victim < 0) victim = i;
      continue;
    }
    if (s->tid == curid) {
      if (s->clk == myclk && (s->mask & mask) == mask && s->flags == myflags) return;
      /* covered by the new one: replace */
      if ((s->mask & ~mask) == 0 && (wr || !(s->flags & 1)) && (!at || (s->flags & 2))) victim = i;
      continue;
    }
    if (cur->vc[s->tid] >= s->clk) {
      old = i;
      continue;
    }
    if ((s->mask & mask) && (wr || (s->flags & 1)) && !(at && (s->flags & 2))) race(s, addr, 0, wr, at, pc);
  }
  if (victim < 0) victim = old;
  if (victim < 0) victim = (int)(g_ev & 3);
  slot *s = &c->s[victim];
  s->clk = myclk;
  s->tid = (uint8_t)curid;
  s->flags = myflags;
  s->mask = mask;
  s->pc = pc;
}
static void shadow_range(uint64_t a, uint64_t n, int wr, int at, uint64_t pc) {
  while (n) {
    uint64_t g = a >> 3;
    unsigned off = a & 7, k = 8 - off;
    if (k > n) k = (unsigned)n;
    spage *p = sh_page(g >> 9, 1);
    access_cell(&p->c[g & 511], a, (uint8_t)(((1u << k) - 1) << off), wr, at, pc);
    a += k;
    n -= k;
  }
}
static void shadow_clear(uint64_t a, uint64_t n) {
  uint64_t g = a >> 3, e = (a + n + 7) >> 3;
  while (g < e) {
    uint64_t pn = g >> 9, ge = (pn + 1) << 9;
    if (ge > e) ge = e;
    spage *p = sh_page(pn, 0);
    if (p) {
      memset(&p->c[g & 511], 0, (ge - g) * sizeof(cell));
      for (uint64_t i = g; i < ge; i++) {
        uint32_t *ix = &p->sync[i & 511];
        if (*ix) {
          sy[*ix].next_free = sy_free;
          sy_free = *ix;
          *ix = 0;
        }
      }
    }
    g = ge;
  }
}
static syncobj *sync_of(uint64_t a, int create) {
  uint64_t g = a >> 3;
  spage *p = sh_page(g >> 9, create);
  if (!p) return NULL;
  uint32_t *ix = &p->sync[g & 511];
  if (!*ix) {
    if (!create) return NULL;
    if (sy_free) {
      *ix = sy_free;
      sy_free = sy[*ix].next_free;
      memset(sy[*ix].vc, 0, sizeof sy[*ix].vc);
    } else {
      if (sy_n >= SY_CAP) sim_fail(V_INTERNAL, "sync objects exhausted");
      *ix = sy_n++;
    }
  }
  return &sy[*ix];
}
static inline void vjoin(uint32_t *d, const uint32_t *s) {
  for (int i = 0; i < nT; i++)
    if (s[i] > d[i]) d[i] = s[i];
}

/* ------------------------------------------------------------------ plain accesses */
static inline void acc(void *a, unsigned size, int wr, uint64_t pc) {
  if (!g_on) return;
  g_ev++;
  if (likely(sim_S->race && nT > 1)) {
    uint64_t ad = (uint64_t)a, g = ad >> 3;
    unsigned off = ad & 7;
    if (off + size <= 8) {
      spage *p = sh_page(g >> 9, 1);
      access_cell(&p->c[g & 511], ad, (uint8_t)(((1u << size) - 1) << off), wr, 0, pc);
    } else
      shadow_range(ad, size, wr, 0, pc);
  }
  if (unlikely(g_ev >= g_next_stop)) schedule(0);
}
/* volatile: how crossbeam's deque copies a job it may have to throw away again; races with other
 * volatile or atomic accesses are intended, races with plain ones are not */
static inline void vol(void *a, unsigned size, int wr, uint64_t pc) {
  if (!g_on) return;
  g_ev++;
  if (likely(sim_S->race && nT > 1)) shadow_range((uint64_t)a, size, wr, 1, pc);
  if (unlikely(g_ev >= g_next_stop)) schedule(0);
}
#define PC ((uint64_t)__builtin_return_address(0))
#define RW(n)                                                                  \
  void __tsan_read##n(void *a) { acc(a, n, 0, PC); }                           \
  void __tsan_write##n(void *a) { acc(a, n, 1, PC); }                          \
  void __tsan_unaligned_read##n(void *a) { acc(a, n, 0, PC); }                 \
  void __tsan_unaligned_write##n(void *a) { acc(a, n, 1, PC); }                \
  void __tsan_read_write##n(void *a) { acc(a, n, 1, PC); }                     \
  void __tsan_unaligned_read_write##n(void *a) { acc(a, n, 1, PC); }           \
  void __tsan_volatile_read##n(void *a) { vol(a, n, 0, PC); }                  \
  void __tsan_volatile_write##n(void *a) { vol(a, n, 1, PC); }                 \
  void __tsan_unaligned_volatile_read##n(void *a) { vol(a, n, 0, PC); }        \
  void __tsan_unaligned_volatile_write##n(void *a) { vol(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)v; acc(p, 8, 1, PC); }
void __tsan_vptr_read(void **p) { acc(p, 8, 0, PC); }
static void acc_range(const void *a, size_t n, int wr, uint64_t pc) {
  if (!g_on) return;
  g_ev++;
  if (sim_S->race && nT > 1) shadow_range((uint64_t)a, n, wr, 0, pc);
  if (unlikely(g_ev >= g_next_stop)) schedule(0);
}
void __tsan_read_range(void *a, size_t n) { acc_range(a, n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { acc_range(a, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  uint64_t pc = PC;
  acc_range(s, n, 0, pc);
  acc_range(d, n, 1, pc);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  uint64_t pc = PC;
  acc_range(s, n, 0, pc);
  acc_range(d, n, 1, pc);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  acc_range(d, n, 1, PC);
  return memset(d, c, n);
}

/* ------------------------------------------------------------------ atomics */
enum { MO_RLX = 0, MO_CONSUME, MO_ACQ, MO_REL, MO_ACQREL, MO_SC };
static inline int is_acq(int mo) { return mo == MO_ACQ || mo == MO_CONSUME || mo == MO_ACQREL || mo == MO_SC; }
static inline int is_rel(int mo) { return mo == MO_REL || mo == MO_ACQREL || mo == MO_SC; }
static void at_before(const volatile void *a, unsigned size, int wr, uint64_t pc) {
  (void)wr; (void)size; (void)a;
  g_ev++;
  sync_point(pc);
}
static void at_shadow(const volatile void *a, unsigned size, int wr, uint64_t pc) {
  shadow_range((uint64_t)a, size, wr, 1, pc);
}
static void at_load(const volatile void *a, int mo) {
  syncobj *s = sync_of((uint64_t)a, 0);
  DBG('L',a,mo,s?s->vc:sy[0].vc);
  if (!s) return;
  if (is_acq(mo))
    vjoin(cur->vc, s->vc);
  else {
    vjoin(cur->facq, s->vc);
    cur->has_facq = 1;
  }
}
/* A relaxed store keeps the release sequence of the location alive (the rule of C++11 for the same
 * thread; ThreadSanitizer does the same): crossbeam's deque relies on it. Stores narrower than a
 * granule only add, as a neighbouring atomic may share the granule. */
static void at_store(const volatile void *a, unsigned size, int mo) {
  if (is_rel(mo)) {
    syncobj *s = sync_of((uint64_t)a, 1);
    if (size == 8)
      memcpy(s->vc, cur->vc, sizeof s->vc);
    else
      vjoin(s->vc, cur->vc);
    cur->vc[curid]++;
  } else if (cur->has_frel)
    vjoin(sync_of((uint64_t)a, 1)->vc, cur->frel);
  DBG('S',a,mo,is_rel(mo)?cur->vc:cur->frel);
}
static void at_rmw(const volatile void *a, int mo) {
  syncobj *s = sync_of((uint64_t)a, 1);
  DBG('X',a,mo,s->vc);
  if (is_acq(mo))
    vjoin(cur->vc, s->vc);
  else {
    vjoin(cur->facq, s->vc);
    cur->has_facq = 1;
  }
  if (is_rel(mo)) {
    vjoin(s->vc, cur->vc);
    cur->vc[curid]++;
  } else if (cur->has_frel)
    vjoin(s->vc, cur->frel);
}
static uint32_t sc_vc[SIM_MAXT];
void __tsan_atomic_thread_fence(int mo) {
  if (!g_on) return;
  g_ev++;
  sync_point(0);
  if (!sim_S->race) return;
  DBG('F',0,mo,cur->vc);
  if (is_acq(mo) && cur->has_facq) vjoin(cur->vc, cur->facq);
  if (mo == MO_SC) vjoin(cur->vc, sc_vc);
  if (is_rel(mo)) {
    memcpy(cur->frel, cur->vc, sizeof cur->frel);
    cur->has_frel = 1;
    if (mo == MO_SC) vjoin(sc_vc, cur->vc);
    cur->vc[curid]++;
  }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define RD (sim_S->race)
#define ATOMIC(n, ty)                                                                            \
  ty __tsan_atomic##n##_load(const volatile ty *a, int mo) {                                     \
    if (!g_on) return *a;                                                                        \
    at_before(a, n / 8, 0, PC);                                                                  \
    if (RD) { at_shadow(a, n / 8, 0, PC); at_load(a, mo); }                                      \
    return *a;                                                                                   \
  }                                                                                              \
  void __tsan_atomic##n##_store(volatile ty *a, ty v, int mo) {                                  \
    if (!g_on) { *a = v; return; }                                                               \
    at_before(a, n / 8, 1, PC);                                                                  \
    if (RD) { at_shadow(a, n / 8, 1, PC); at_store(a, n / 8, mo); }                                     \
    *a = v;                                                                                      \
  }                                                                                              \
  ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int mo) {                                 \
    if (g_on) { at_before(a, n / 8, 1, PC); if (RD) { at_shadow(a, n / 8, 1, PC); at_rmw(a, mo); } } \
    ty o = *a; *a = v; return o;                                                                 \
  }                                                                                              \
  ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int mo) {                                \
    if (g_on) { at_before(a, n / 8, 1, PC); if (RD) { at_shadow(a, n / 8, 1, PC); at_rmw(a, mo); } } \
    ty o = *a; *a = (ty)(o + v); return o;                                                       \
  }                                                                                              \
  ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int mo) {                                \
    if (g_on) { at_before(a, n / 8, 1, PC); if (RD) { at_shadow(a, n / 8, 1, PC); at_rmw(a, mo); } } \
    ty o = *a; *a = (ty)(o - v); return o;                                                       \
  }                                                                                              \
  ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int mo) {                                \
    if (g_on) { at_before(a, n / 8, 1, PC); if (RD) { at_shadow(a, n / 8, 1, PC); at_rmw(a, mo); } } \
    ty o = *a; *a = (ty)(o & v); return o;                                                       \
  }                                                                                              \
  ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int mo) {                                 \
    if (g_on) { at_before(a, n / 8, 1, PC); if (RD) { at_shadow(a, n / 8, 1, PC); at_rmw(a, mo); } } \
    ty o = *a; *a = (ty)(o | v); return o;                                                       \
  }                                                                                              \
  ty __tsan_atomic##n##_fetch_xor(volatile ty *a, ty v, int mo) {                                \
    if (g_on) { at_before(a, n / 8, 1, PC); if (RD) { at_shadow(a, n / 8, 1, PC); at_rmw(a, mo); } } \
    ty o = *a; *a = (ty)(o ^ v); return o;                                                       \
  }                                                                                              \
  ty __tsan_atomic##n##_fetch_nand(volatile ty *a, ty v, int mo) {                               \
    if (g_on) { at_before(a, n / 8, 1, PC); if (RD) { at_shadow(a, n / 8, 1, PC); at_rmw(a, mo); } } \
    ty o = *a; *a = (ty)(~(o & v)); return o;                                                    \
  }                                                                                              \
  ty __tsan_atomic##n##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) {      \
    if (g_on) at_before(a, n / 8, 1, PC);                                                        \
    ty o = *a;                                                                                   \
    if (o == c) {                                                                                \
      if (g_on && RD) { at_shadow(a, n / 8, 1, PC); at_rmw(a, mo); }                             \
      *a = v;                                                                                    \
    } else if (g_on && RD) { at_shadow(a, n / 8, 0, PC); at_load(a, fmo); }                      \
    return o;                                                                                    \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
typedef unsigned __int128 u128;
ATOMIC(128, u128)

/* ------------------------------------------------------------------ memory */
#define HEAP_BASE 0x200000000000ull
#define HEAP_SIZE (1ull << 36)
typedef struct { uint32_t cls, off; uint64_t size; } hdr;
static char *heap_next, *heap_end;
static void *heap_free_[256];
static volatile int heap_lock;
static void hlock(void) {
  while (__sync_lock_test_and_set(&heap_lock, 1)) __builtin_ia32_pause();
}
static void hunlock(void) { __sync_lock_release(&heap_lock); }
static void heap_init(void) {
  char *p = (char *)RAW(SYS_mmap, HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if ((uint64_t)p != HEAP_BASE) {
    put_out("sim: no heap\n");
    RAW(SYS_exit_group, 78);
  }
  heap_next = p;
  heap_end = p + HEAP_SIZE;
}
static unsigned size_class(uint64_t n, uint64_t *csz) { /* n includes the header */
  if (n <= 1024) {
    unsigned c = (unsigned)((n + 15) / 16);
    *csz = (uint64_t)c * 16;
    return c;
  }
  unsigned lg = 63 - (unsigned)__builtin_clzll(n - 1); /* 2^lg <= n-1 < 2^(lg+1) */
  uint64_t step = 1ull << (lg - 2);
  uint64_t k = (n - (1ull << lg) + step - 1) / step; /* 1..4 */
  if (k == 0) k = 1;
  *csz = (1ull << lg) + k * step;
  return 65 + (lg - 10) * 4 + (unsigned)k - 1;
}
static void *heap_alloc(uint64_t n, uint64_t align) {
  if (n > (1ull << 35)) return NULL;
  if (g_on && curid >= 0 && sim_P) {
    sim_P->nallocs++;
    if ((sim_S->rate[S_MALLOC] || sim_S->replay) && (!sim_S->late || sim_late))
      if (fault(S_MALLOC, 2)) {
        errno = ENOMEM;
        return NULL;
      }
  }
  uint64_t extra = align > 16 ? align : 0, csz;
  unsigned c = size_class(n + sizeof(hdr) + extra, &csz);
  hlock();
  if (!heap_next) heap_init();
  char *b;
  if (heap_free_[c]) {
    b = heap_free_[c];
    heap_free_[c] = *(void **)b;
  } else {
    if (heap_next + csz > heap_end) {
      hunlock();
      errno = ENOMEM;
      return NULL;
    }
    b = heap_next;
    heap_next += csz;
  }
  hunlock();
  char *p = b + sizeof(hdr);
  if (extra) p = (char *)(((uint64_t)p + align - 1) & ~(align - 1));
  hdr *h = (hdr *)(p - sizeof(hdr));
  h->cls = c;
  h->off = (uint32_t)(p - b);
  h->size = n;
  if (g_on && sim_S->race) shadow_clear((uint64_t)p, n);
  return p;
}
static void heap_release(void *p, uint64_t pc) {
  if (!p) return;
  if ((uint64_t)p < HEAP_BASE || (uint64_t)p >= HEAP_BASE + HEAP_SIZE) return; /* from before us */
  hdr *h = (hdr *)((char *)p - sizeof(hdr));
  if (g_on && sim_S->race) {
    if (nT > 1 && cur && h->size <= (1u << 20)) shadow_range((uint64_t)p, h->size, 1, 0, pc);
    shadow_clear((uint64_t)p, h->size);
  }
  unsigned c = h->cls;
  char *b = (char *)p - h->off;
  hlock();
  *(void **)b = heap_free_[c];
  heap_free_[c] = b;
  hunlock();
}
void *malloc(size_t n) { return heap_alloc(n, 16); }
void free(void *p) { heap_release(p, PC); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return NULL;
  }
  void *p = heap_alloc(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void *realloc(void *o, size_t n) {
  if (!o) return heap_alloc(n, 16);
  hdr *h = (hdr *)((char *)o - sizeof(hdr));
  void *p = heap_alloc(n, 16);
  if (!p) return NULL;
  memcpy(p, o, h->size < n ? h->size : n);
  heap_release(o, PC);
  return p;
}
void *reallocarray(void *o, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return NULL;
  }
  return realloc(o, n);
}
void *memalign(size_t al, size_t n) { return heap_alloc(n, al); }
void *aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al); }
int posix_memalign(void **out, size_t al, size_t n) {
  void *p = heap_alloc(n, al);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void *p) { return p ? ((hdr *)((char *)p - sizeof(hdr)))->size : 0; }

/* ------------------------------------------------------------------ threads: libc calls */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static int new_thread(void) {
  int id = nT;
  if (nT >= 40)
    for (int i = 1; i < nT; i++)
      if (T[i].state == T_DEAD && (!T[i].fn || T[i].detached)) {
        id = i;
        break;
      }
  if (id >= SIM_MAXT || creations >= SIM_CREATIONS) sim_fail(V_TOOMANY, "more than %d threads", SIM_MAXT);
  thr *t = &T[id];
  uint32_t clk = id < nT ? t->vc[id] : 0;
  if (id == nT) nT++;
  memset(t, 0, sizeof *t);
  t->sem = &park_sem[creations++];
  t->state = T_RUN;
  t->prio = new_prio();
  t->vc[id] = clk + 1;
  if (sim_P->nthreads < (uint32_t)nT) sim_P->nthreads = (uint32_t)nT;
  return id;
}
static void thread_end(void *p) {
  thr *t = p;
  if (cur != t) return;
  if (t->ending++ < 2) { /* other keys first */
    pthread_setspecific(end_key, t);
    return;
  }
  if (sim_S->race) shadow_clear(t->stk_lo, t->stk_hi - t->stk_lo);
  int id = curid;
  t->state = T_DEAD;
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_JOIN && T[i].joining == id) T[i].state = T_RUN;
  schedule(3);
}
static void *trampoline(void *p) {
  thr *t = p;
  t->fs = get_fs();
  long k = t->sem - park_sem;
  sim_ctx_park(&t->sp, park_stk[k] + sizeof park_stk[0], t);
  /* from here on it is the first real thread that executes this */
  rearm();
  pthread_attr_t at;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    void *lo;
    size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    t->stk_lo = (uintptr_t)lo;
    t->stk_hi = (uintptr_t)lo + sz;
    pthread_attr_destroy(&at);
  }
  pthread_setspecific(end_key, t); /* runs thread_end after the thread-local destructors */
  t->started = 1;
  return t->ret = t->fn(t->arg);
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!g_on) return real_create(out, attr, fn, arg);
  g_ev++;
  sim_late = 1;
  if (fault(S_TCREATE, 2)) return EAGAIN;
  int id = new_thread();
  thr *t = &T[id];
  t->fn = fn;
  t->arg = arg;
  vjoin(t->vc, cur->vc);
  cur->vc[curid]++;
  int r = real_create(out, attr, trampoline, t);
  if (r) {
    t->state = T_DEAD;
    return r;
  }
  t->pt = *out;
  while (!__atomic_load_n(t->sem, __ATOMIC_ACQUIRE)) RAW(SYS_futex, t->sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  sync_point(0);
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!g_on) return real_join(pt, ret);
  g_ev++;
  int id = -1;
  for (int i = 1; i < nT; i++)
    if (T[i].fn && pthread_equal(T[i].pt, pt)) id = i;
  if (id < 0) sim_fail(V_INTERNAL, "join of an unknown thread");
  while (T[id].state != T_DEAD) {
    cur->state = T_JOIN;
    cur->joining = id;
    schedule(3);
  }
  vjoin(cur->vc, T[id].vc);
  T[id].fn = NULL;
  if (ret) *ret = T[id].ret;
  return 0;
}
int pthread_detach(pthread_t pt) {
  static int (*real)(pthread_t);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_detach");
  if (!g_on) return real(pt);
  for (int i = 1; i < nT; i++)
    if (T[i].fn && pthread_equal(T[i].pt, pt)) T[i].detached = 1;
  return 0;
}
int sched_yield(void) {
  if (!g_on) return (int)fix(RAW(SYS_sched_yield));
  if (nT < 2) {
    g_ev++;
    return 0;
  }
  schedule(2);
  return 0;
}
static int sim_futex_wait(uint32_t *addr, uint32_t val, uint32_t bits, uint64_t deadline) {
  g_ev++;
  sync_point(0);
  if (*(volatile uint32_t *)addr != val) {
    errno = EAGAIN;
    return -1;
  }
  uint32_t f = fault(S_FUTEX, 3);
  if (f) {
    if (nT > 1) schedule(2);
    if (f == 1) return 0;
    errno = EINTR;
    return -1;
  }
  cur->state = T_FUTEX;
  cur->faddr = addr;
  cur->fbits = bits;
  cur->deadline = deadline;
  cur->timed_out = 0;
  thr *me = cur;
  schedule(3);
  me->deadline = 0;
  if (me->timed_out) {
    me->timed_out = 0;
    errno = ETIMEDOUT;
    return -1;
  }
  return 0;
}
static int sim_futex_wake(uint32_t *addr, uint32_t n, uint32_t bits) {
  g_ev++;
  int woken = 0;
  int w[SIM_MAXT], m = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == T_FUTEX && T[i].faddr == addr && (T[i].fbits & bits)) w[m++] = i;
  /* which of several waiters wakes is unspecified: rotate by seed */
  uint32_t rot = m > 1 ? (uint32_t)(mix(sim_S->rng_seed, g_ev) % (uint64_t)m) : 0;
  for (int i = 0; i < m && (uint32_t)woken < n; i++) {
    thr *t = &T[w[(i + (int)rot) % m]];
    t->state = T_RUN;
    t->faddr = NULL;
    t->deadline = 0;
    woken++;
  }
  if (woken) sync_point(0);
  return woken;
}
static uint64_t rng_state[2];
static void rng_fill(void *b, size_t n) {
  uint8_t *p = b;
  while (n) {
    uint64_t v = sim_rand64(rng_state);
    size_t k = n < 8 ? n : 8;
    memcpy(p, &v, k);
    p += k;
    n -= k;
  }
}
long syscall(long num, ...) {
  va_list ap;
  va_start(ap, num);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (g_on) {
    if (num == SYS_futex) {
      int op = (int)b & FUTEX_CMD_MASK;
      switch (op) {
      case FUTEX_WAIT:
      case FUTEX_WAIT_BITSET: {
        uint64_t dl = 0;
        if (d) {
          const struct timespec *ts = (void *)d;
          dl = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
          if (op == FUTEX_WAIT) dl += sim_clock(); /* relative; the other one is absolute */
          if (!dl) dl = 1;
        }
        return sim_futex_wait((uint32_t *)a, (uint32_t)c, op == FUTEX_WAIT ? ~0u : (uint32_t)f, dl);
      }
      case FUTEX_WAKE: return sim_futex_wake((uint32_t *)a, (uint32_t)c, ~0u);
      case FUTEX_WAKE_BITSET: return sim_futex_wake((uint32_t *)a, (uint32_t)c, (uint32_t)f);
      default: sim_fail(V_UNSUPPORTED, "futex operation %d", op);
      }
    }
    if (num == SYS_getrandom) {
      rng_fill((void *)a, (size_t)b);
      return b;
    }
    if (num == SYS_gettid) return 8400000 + sim_rank * 1000 + curid;
    if (num == SYS_sched_yield) return sched_yield();
  }
  return fix(RAW(num, a, b, c, d, e, f));
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!g_on) return fix(RAW(SYS_getrandom, b, n, fl));
  rng_fill(b, n);
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  if (!g_on) {
    return fix(RAW(SYS_getrandom, b, n, 0)) < 0 ? -1 : 0;
  }
  rng_fill(b, n);
  return 0;
}

pid_t gettid(void) { return g_on ? 8400000 + sim_rank * 1000 + curid : (pid_t)RAW(SYS_gettid); }
/* larger than any real one: nobody finds another process under /proc by it */
pid_t getpid(void) { return g_on ? 8400000 + sim_rank * 1000 : (pid_t)RAW(SYS_getpid); }

/* ------------------------------------------------------------------ time */
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!g_on) return (int)fix(RAW(SYS_clock_gettime, id, ts));
  g_ev++;
  uint32_t j = fault(S_CLOCK, 4);
  if (j) clock_skip += (uint64_t)1000000000ull * j * j * j * 60;
  uint64_t t = sim_clock();
  ts->tv_sec = (time_t)(t / 1000000000ull);
  ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
static int sim_sleep(uint64_t ns) {
  cur->state = T_SLEEP;
  cur->deadline = sim_clock() + (ns ? ns : 1);
  schedule(3);
  cur->timed_out = 0;
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  (void)rem;
  if (!g_on) return (int)fix(RAW(SYS_nanosleep, r, rem));
  return sim_sleep((uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  (void)rem;
  if (!g_on) return (int)-RAW(SYS_clock_nanosleep, c, fl, r, rem);
  uint64_t v = (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec;
  if (fl & TIMER_ABSTIME) {
    uint64_t now = sim_clock();
    v = v > now ? v - now : 1;
  }
  return sim_sleep(v);
}

/* ------------------------------------------------------------------ CPU count */
static int cpu_broken;
static uint32_t ncpu_here(void) {
  if (sim_S->cpu_vary) return 1 + (uint32_t)(mix(sim_S->seed, 9000 + (uint64_t)sim_rank) % 8);
  return sim_S->ncpu;
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!g_on) {
    long r = RAW(SYS_sched_getaffinity, pid, sz, set);
    if (r >= 0 && (size_t)r < sz) memset((char *)set + r, 0, sz - (size_t)r);
    return r < 0 ? (int)fix(r) : 0;
  }
  g_ev++;
  if (fault(S_CPU, 2)) {
    cpu_broken = 1;
    errno = EPERM;
    return -1;
  }
  memset(set, 0, sz);
  uint32_t nc = ncpu_here();
  for (uint32_t i = 0; i < nc && i < sz * 8; i++) ((uint8_t *)set)[i / 8] |= (uint8_t)(1u << (i % 8));
  return 0;
}
static long (*real_sysconf)(int);
long sysconf(int name) {
  if (g_on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return cpu_broken ? -1 : (long)ncpu_here();
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  return real_sysconf(name);
}

/* ------------------------------------------------------------------ files */
#define VFD 900
#define NVFD 32
static struct { int used, file; uint64_t pos; int eof; } V[NVFD];
static int find_file(const char *path) {
  for (uint32_t i = 0; i < sim_S->nfiles; i++)
    if (!strcmp(path, sim_S->files[i].name)) return (int)i;
  return -1;
}
static int is_vfd(int fd) { return g_on && fd >= VFD && fd < VFD + NVFD && V[fd - VFD].used; }
static int quiet_file(int f) { return !strncmp(sim_S->files[f].name, "/sim/scenario", 13); }
static int sim_open(const char *path, int flags, mode_t mode) {
  if (!g_on) return (int)fix(RAW(SYS_openat, AT_FDCWD, path, flags, mode));
  g_ev++;
  if (!strncmp(path, "/proc/", 6) || !strncmp(path, "/sys/", 5)) {
    errno = ENOENT;
    return -1;
  }
  if (!strncmp(path, "/sim/", 5)) {
    int f = find_file(path);
    if (f < 0) {
      errno = ENOENT;
      return -1;
    }
    if (!quiet_file(f)) {
      static const int er[] = {0, ENOENT, EACCES, EMFILE, EIO, EINTR};
      uint32_t k = fault(S_OPEN, 6);
      if (k) {
        errno = er[k];
        return -1;
      }
    }
    for (int i = 0; i < NVFD; i++)
      if (!V[i].used) {
        V[i].used = 1;
        V[i].file = f;
        V[i].pos = 0;
        V[i].eof = 0;
        return VFD + i;
      }
    errno = EMFILE;
    return -1;
  }
  if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) sim_fail(V_UNSUPPORTED, "open %s", path);
  return (int)fix(RAW(SYS_openat, AT_FDCWD, path, flags, mode));
}
#define MODE_ARG(m, fl)                   \
  mode_t m = 0;                           \
  if ((fl) & (O_CREAT | O_TMPFILE)) {     \
    va_list ap;                           \
    va_start(ap, fl);                     \
    m = va_arg(ap, mode_t);               \
    va_end(ap);                           \
  }
int open(const char *p, int fl, ...) { MODE_ARG(m, fl) return sim_open(p, fl, m); }
int open64(const char *p, int fl, ...) { MODE_ARG(m, fl) return sim_open(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE_ARG(m, fl) if (g_on && p[0] == '/') return sim_open(p, fl, m); return (int)fix(RAW(SYS_openat, d, p, fl, m)); }
int openat64(int d, const char *p, int fl, ...) { MODE_ARG(m, fl) if (g_on && p[0] == '/') return sim_open(p, fl, m); return (int)fix(RAW(SYS_openat, d, p, fl, m)); }
static ssize_t vread(int fd, void *b, size_t n) {
  int v = fd - VFD;
  g_ev++;
  sim_P->nreads++;
  sim_file *f = &sim_S->files[V[v].file];
  uint64_t left = V[v].pos < f->len ? f->len - V[v].pos : 0;
  if (n > left) n = left;
  if (sim_S->pipe && n > 65536) n = 65536;
  if (!quiet_file(V[v].file)) {
    uint32_t k = fault(S_READ, 6);
    if (k == 1) {
      errno = EINTR;
      return -1;
    }
    if (k == 4) {
      errno = EIO;
      return -1;
    }
    if (k == 5) V[v].eof = 1;
    if (V[v].eof) return 0;
    if (k == 2 && n > 1) n = 1;
    if (k == 3 && n > 1) n = (n + 1) / 2;
  }
  memcpy(b, sim_S->filedata + f->off + V[v].pos, n);
  V[v].pos += n;
  if (n && sim_S->race && nT > 1) shadow_range((uint64_t)b, n, 1, 0, PC);
  return (ssize_t)n;
}
ssize_t read(int fd, void *b, size_t n) {
  if (is_vfd(fd)) return vread(fd, b, n);
  return fix(RAW(SYS_read, fd, b, n));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (is_vfd(fd)) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return vread(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return fix(RAW(SYS_readv, fd, v, c));
}
static ssize_t vpread(int fd, void *b, size_t n, off_t o) {
  if (sim_S->pipe) {
    errno = ESPIPE;
    return -1;
  }
  uint64_t save = V[fd - VFD].pos;
  V[fd - VFD].pos = (uint64_t)o;
  ssize_t r = vread(fd, b, n);
  V[fd - VFD].pos = save;
  return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (is_vfd(fd)) return vpread(fd, b, n, o);
  return fix(RAW(SYS_pread64, fd, b, n, o));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return pread(fd, b, n, o); }
static off_t sim_lseek(int fd, off_t o, int wh) {
  if (is_vfd(fd)) {
    if (sim_S->pipe) {
      errno = ESPIPE;
      return -1;
    }
    int v = fd - VFD;
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)V[v].pos : (int64_t)sim_S->files[V[v].file].len;
    if (base + o < 0) {
      errno = EINVAL;
      return -1;
    }
    V[v].pos = (uint64_t)(base + o);
    return (off_t)V[v].pos;
  }
  return fix(RAW(SYS_lseek, fd, o, wh));
}
off_t lseek(int fd, off_t o, int wh) { return sim_lseek(fd, o, wh); }
off64_t lseek64(int fd, off64_t o, int wh) { return sim_lseek(fd, o, wh); }
int close(int fd) {
  if (is_vfd(fd)) {
    V[fd - VFD].used = 0;
    return 0;
  }
  return (int)fix(RAW(SYS_close, fd));
}
static void vstat(int fd, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = (sim_S->pipe ? S_IFIFO : S_IFREG) | 0644;
  st->st_nlink = 1;
  st->st_size = sim_S->pipe ? 0 : (off_t)sim_S->files[V[fd - VFD].file].len;
  st->st_blksize = 4096;
}
int fstat(int fd, struct stat *st) {
  if (is_vfd(fd)) return vstat(fd, st), 0;
  return (int)fix(RAW(SYS_fstat, fd, st));
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int statx(int d, const char *restrict path, int fl, unsigned mask, struct statx *restrict x) {
  if (is_vfd(d)) {
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_mode = (sim_S->pipe ? S_IFIFO : S_IFREG) | 0644;
    x->stx_nlink = 1;
    x->stx_size = sim_S->pipe ? 0 : sim_S->files[V[d - VFD].file].len;
    x->stx_blksize = 4096;
    return 0;
  }
  if (g_on && path && !strncmp(path, "/sim/", 5)) {
    int f = find_file(path);
    if (f < 0) {
      errno = ENOENT;
      return -1;
    }
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_mode = (sim_S->pipe ? S_IFIFO : S_IFREG) | 0644;
    x->stx_nlink = 1;
    x->stx_size = sim_S->pipe ? 0 : sim_S->files[f].len;
    x->stx_blksize = 4096;
    return 0;
  }
  return (int)fix(RAW(SYS_statx, d, path, fl, mask, x));
}
int posix_fadvise(int fd, off_t o, off_t l, int a) {
  if (is_vfd(fd)) return 0;
  return (int)-RAW(SYS_fadvise64, fd, o, l, a);
}

/* standard output and error */
static ssize_t sim_write(int fd, const void *b, size_t n) {
  sim_proc *P = sim_P;
  if (fd == 2) {
    uint32_t k = (uint32_t)n;
    if (k > SIM_ERRCAP - P->errlen) k = SIM_ERRCAP - P->errlen;
    memcpy(P->err + P->errlen, b, k);
    P->errlen += k;
    return (ssize_t)n;
  }
  g_ev++;
  P->nwrites++;
  if (n) {
    static const int er[] = {0, EINTR, 0, 0, ENOSPC, EPIPE, EIO, EAGAIN};
    uint32_t k = fault(S_WRITE, 9);
    if (k == 8) {
      long me = RAW(SYS_getpid);
      RAW(SYS_kill, me, SIGKILL);
      for (;;) RAW(SYS_pause);
    }
    if (k == 2 && n > 1)
      n = 1;
    else if (k == 3 && n > 1)
      n = (n + 1) / 2;
    else if (k && k != 2 && k != 3) {
      errno = er[k];
      return -1;
    }
  }
  if (P->outlen + n > SIM_OUTCAP) sim_fail(V_INTERNAL, "too much output");
  memcpy(P->out + P->outlen, b, n);
  P->outlen += (uint32_t)n;
  return (ssize_t)n;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (g_on && (fd == 1 || fd == 2)) return sim_write(fd, b, n);
  return fix(RAW(SYS_write, fd, b, n));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (g_on && (fd == 1 || fd == 2)) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
      if (!v[i].iov_len) continue;
      ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
      if (r < 0) return t ? t : r;
      t += r;
      if ((size_t)r < v[i].iov_len) break;
    }
    return t;
  }
  return fix(RAW(SYS_writev, fd, v, c));
}
int isatty(int fd) {
  if (g_on && fd <= 2) {
    errno = ENOTTY;
    return 0;
  }
  struct { char b[60]; } tio;
  return RAW(SYS_ioctl, fd, 0x5401 /* TCGETS */, &tio) == 0;
}

/* a big instance nobody has to write down; the driver computes the same costs */
void sim_fill_matrix(double *m, uint64_t n, uint64_t seed) {
  uint64_t b = seed % 2 ? 1000 : 1000000; /* always metric; with many ties, or hardly any */
  for (uint64_t i = 0; i < n; i++) {
    m[i * n + i] = 0;
    for (uint64_t j = i + 1; j < n; j++) m[i * n + j] = m[j * n + i] = (double)(b + mix(seed, i * n + j) % (b + 1));
  }
}

/* ------------------------------------------------------------------ fork server */
static int g_argc;
static char **g_argv;
static int ctl_fd = -1;

void sim_begin(int rank) { /* in a forked child: become simulated process `rank` */
  sim_rank = rank;
  sim_P = &sim_S->proc[rank];
  memset(T, 0, sizeof T);
  nT = 0;
  creations = 0;
  memset(park_sem, 0, sizeof park_sem);
  policy_init();
  cur = &T[0];
  curid = 0;
  cur = &T[new_thread()];
  T[0].pt = pthread_self();
  T[0].prio = new_prio();
  rng_state[0] = mix(sim_S->rng_seed, 77 + (uint64_t)rank);
  g_ev = 0;
  rearm();
  char *p = sim_S->args;
  uint32_t n = 1;
  for (uint32_t i = 0; i < sim_S->nargs && (int)i + 1 < g_argc; i++) {
    g_argv[n++] = p;
    p += strlen(p) + 1;
  }
  if ((int)n < g_argc) g_argv[n] = NULL;
  if (sim_S->rayon_threads) {
    char b[16];
    snprintf(b, sizeof b, "%u", sim_S->rayon_threads);
    setenv("RAYON_NUM_THREADS", b, 1);
  } else {
    unsetenv("RAYON_NUM_THREADS");
  }
  long null = RAW(SYS_open, "/dev/null", 1 /* O_WRONLY */, 0);
  if (null >= 0) { /* what the C library says when it gives up */
    RAW(SYS_dup2, null, 2);
    RAW(SYS_close, null);
  }
  g_on = 1;
}
static void at_exit_(void) {
  if (sim_P) {
    sim_P->events = g_ev;
    sim_P->clock_ns = sim_clock() - clock_base;
  }
}
uint64_t sim_mix(uint64_t a, uint64_t b) { return mix(a, b); }
int sim_thread_id(void) { return curid; }
void sim_pause(void) { g_on = 0; }
uint64_t sim_events(void) { return g_ev; }
void sim_event(void) {
  g_ev++;
  if (g_ev >= sim_S->step_limit) sim_fail(V_STEPLIMIT, "no end after %llu events", (unsigned long long)g_ev);
}
static void pin(const char *s) {
  cpu_set_t set;
  CPU_ZERO(&set);
  CPU_SET((unsigned)atoi(s), &set);
  RAW(SYS_sched_setaffinity, 0, sizeof set, &set);
}
static void serve(void) {
  for (;;) {
    char c;
    long r = RAW(SYS_read, ctl_fd, &c, 1);
    if (r != 1) RAW(SYS_exit_group, 0);
    if (sim_S->nranks >= 1 && sim_mpi_run) {
      if (sim_mpi_run()) return; /* in a rank: go on to main */
    } else {
      pid_t pid = fork();
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit nocore = {0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        RAW(SYS_close, ctl_fd);
        sim_begin(0);
        return; /* to main */
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      sim_S->proc[0].status = st;
      sim_S->proc[0].exited = 1;
    }
    c = 'd';
    RAW(SYS_write, ctl_fd, &c, 1);
  }
}
__attribute__((constructor(65000))) static void sim_ctor(int argc, char **argv, char **envp) {
  (void)envp;
  const char *fd = getenv("SIM_SHM_FD"), *cfd = getenv("SIM_CTL_FD"), *cpu = getenv("SIM_CPU");
  if (!fd || !cfd) return;
  ctl_fd = atoi(cfd);
  if (cpu) pin(cpu);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  g_argc = argc;
  g_argv = argv;
  sim_S = (sim_shm *)RAW(SYS_mmap, 0, sizeof(sim_shm), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(fd), 0);
  if ((long)sim_S < 0 && (long)sim_S > -4096) {
    put_out("sim: cannot map\n");
    RAW(SYS_exit_group, 78);
  }
  if (sim_S->magic != SIM_MAGIC || sim_S->pad2 != sizeof(sim_shm)) {
    put_out("sim: the driver was built for another layout\n");
    RAW(SYS_exit_group, 78);
  }
  unsetenv("SIM_SHM_FD");
  unsetenv("SIM_CTL_FD");
  unsetenv("SIM_CPU");
  sh_cap = 1ull << 34;
  sh_arena = (char *)RAW(SYS_mmap, 0, sh_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh_tab = (void *)RAW(SYS_mmap, 0, sizeof(*sh_tab) << SH_BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sy = (void *)RAW(SYS_mmap, 0, sizeof(syncobj) * (uint64_t)SY_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_key_create(&end_key, thread_end);
  atexit(at_exit_);
  have_fsgs = (getauxval(AT_HWCAP2) & 2) != 0 && !getenv("SIM_NO_FSGS");
  own_init();
  char c = 'r';
  RAW(SYS_write, ctl_fd, &c, 1);
  serve();
}
