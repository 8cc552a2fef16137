/* A simulated MPI library: every rank is a forked process that only runs while the controller
 * (the fork server) lets it; every message delivery, completion, buffering decision and process
 * death is an action the seeded controller chooses. It implements the interface of Open MPI's
 * mpi.h, so that the unchanged mpi crate links against it. */
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "simrt.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

void sim_begin(int rank);
void sim_event(void);
int sim_thread_id(void);
extern uint64_t sim_mix(uint64_t a, uint64_t b);

/* ------------------------------------------------------------------ requests to the controller */
#define MAXIDS 1024
#define OUTMAX (1u << 22)
enum { Q_SEND = 1, Q_RECV, Q_WAIT, Q_PROBE, Q_MRECV, Q_COLL, Q_CANCEL, Q_FREE, Q_ABORT };
enum { W_ALL = 0, W_ANY, W_SOME };
enum { C_INIT = 0, C_FINALIZE, C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_GATHER, C_ALLGATHER, C_SCATTER,
       C_ALLTOALL, C_SCAN, C_EXSCAN, C_RSCATTER, C_COMM, C_NKINDS };
static const char *cname[] = {"init", "finalize", "barrier", "bcast", "reduce", "allreduce", "gather", "allgather",
                              "scatter", "alltoall", "scan", "exscan", "reduce_scatter", "comm_create"};
typedef struct { uint32_t id; int32_t src, tag; uint32_t len, off, extra, cancelled; uint64_t inst; } done_t;
typedef struct {
  /* request */
  uint32_t op;
  int32_t dst, src, tag, mode, poll, root, kind, code, me, csize;
  uint32_t ctx, cap, nids, id, outlen, nchunks, rop, probe;
  uint64_t sig, nsig;
  uint32_t ids[MAXIDS];
  uint32_t chunk[64];
  uint64_t chunksig[64];
  int32_t members[SIM_MAXRANKS];
  /* answer */
  uint32_t ndone, rid, found, inlen;
  int32_t psrc, ptag;
  uint32_t plen, pmsg;
  uint64_t psig, pnsig;
  done_t done[MAXIDS];
  uint8_t out[OUTMAX];
  uint8_t in[]; /* up to the end of the rank's part of the arena */
} rq;
#define PART (SIM_MPICAP / SIM_MAXRANKS)
#define INMAX (PART - sizeof(rq))
static rq *part(int r) { return (rq *)(sim_S->mpi + (size_t)PART * (size_t)r); }

static long sys3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static int my_fd = -1;
static int rd1(int fd) { /* 1 or 0 */
  char c;
  long n;
  do n = sys3(SYS_read, fd, (long)&c, 1); while (n == -EINTR);
  return n == 1;
}
static int wr1(int fd) {
  char c = 'x';
  long n;
  do {
    register long fl __asm__("r10") = MSG_NOSIGNAL, ad __asm__("r8") = 0, al __asm__("r9") = 0;
    __asm__ volatile("syscall"
                     : "=a"(n)
                     : "a"(SYS_sendto), "D"((long)fd), "S"((long)&c), "d"(1L), "r"(fl), "r"(ad), "r"(al)
                     : "rcx", "r11", "memory");
  } while (n == -EINTR);
  return n == 1;
}

/* ================================================================== controller */
typedef struct msg {
  struct msg *next;
  uint32_t id, ctx, len, sreq; /* sreq: send request that waits for the match; 0: none */
  int src, dst, tag, state;    /* 0 in flight, 1 arrived, 2 matched by a probe */
  uint64_t stamp, sig, nsig;
  uint8_t *data;
} msg;
typedef struct req {
  struct req *next;
  uint32_t id, ctx, cap;
  int rank, kind; /* 1 send 2 recv 3 collective */
  int done, src, tag, cancelled;
  uint64_t sig, nsig;
  uint32_t len;
  uint8_t *data;
  struct coll *c;
  int late;
} req;
typedef struct { int in; uint32_t len, nch, chunk[64]; uint64_t sig, nsig, chunksig[64]; uint8_t *data; } contrib;
typedef struct coll {
  struct coll *next;
  uint32_t ctx, seq, kind, rop, order;
  int root, size, nin;
  uint64_t inst;
  int members[SIM_MAXRANKS];
  contrib c[SIM_MAXRANKS];
} coll;
enum { ST_READY = 0, ST_BLOCKED, ST_GONE };
typedef struct {
  pid_t pid;
  int fd, st;
  uint64_t since; /* when its action became possible; 0: it is not */
  int inits, fins;
  uint32_t seqs[256]; /* collectives so far, by context */
} rk;
static rk R[SIM_MAXRANKS];
static int NR;
static msg *M, **Mtail;
static req *Q;
static coll *C;
static uint32_t next_id;
static uint64_t stamp, next_inst;
static int killing, over, any_dead, kill_late;
static uint64_t act_no, kill_no;
static uint64_t pol_rng, kill_since;

static void trace(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  char b[200];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0 || sim_S->trace_len + (uint64_t)n > SIM_TRACECAP) return;
  memcpy(sim_S->trace + sim_S->trace_len, b, (size_t)n);
  sim_S->trace_len += (uint64_t)n;
}
static void verdict(int v, const char *fmt, ...) {
  if (over) return;
  over = 1;
  va_list ap;
  va_start(ap, fmt);
  sim_S->verdict = (uint32_t)v;
  vsnprintf(sim_S->msg, sizeof sim_S->msg, fmt, ap);
  va_end(ap);
  trace("verdict: %s\n", sim_S->msg);
}
static req *find_req(uint32_t id) {
  for (req *q = Q; q; q = q->next)
    if (q->id == id) return q;
  return NULL;
}
static void drop_req(uint32_t id) {
  for (req **p = &Q; *p; p = &(*p)->next)
    if ((*p)->id == id) {
      req *q = *p;
      *p = q->next;
      free(q->data);
      free(q);
      return;
    }
}
static req *new_req(int rank, int kind) { /* at the end: posting order */
  req *q = calloc(1, sizeof *q), **p = &Q;
  while (*p) p = &(*p)->next;
  *p = q;
  q->id = ++next_id;
  q->rank = rank;
  q->kind = kind;
  return q;
}
static void unlink_msg(msg *m) {
  for (msg **p = &M; *p; p = &(*p)->next)
    if (*p == m) {
      *p = m->next;
      break;
    }
  Mtail = &M;
  while (*Mtail) Mtail = &(*Mtail)->next;
}
static int compatible(uint64_t sa, uint64_t na, uint64_t sb, uint64_t nb) {
  (void)na;
  (void)nb;
  return !sa || !sb || sa == sb; /* 0: plain bytes */
}
/* m has found the receive q */
static void match(msg *m, req *q) {
  if (m->len > q->cap) {
    verdict(V_MPI, "truncated: process %d receives %u bytes from %d (tag %d) into a buffer of %u", q->rank, m->len,
            m->src, m->tag, q->cap);
    return;
  }
  /* a shorter message than the buffer: the types can only be compared if the sizes agree */
  if (m->len == q->cap && !compatible(m->sig, m->nsig, q->sig, q->nsig))
    verdict(V_MPI, "type: process %d receives a message from %d (tag %d) as another type", q->rank, m->src, m->tag);
  q->done = 1;
  q->src = m->src;
  q->tag = m->tag;
  q->len = m->len;
  q->data = m->data;
  m->data = NULL;
  if (m->sreq) {
    req *s = find_req(m->sreq);
    if (s) s->done = 1;
  }
  unlink_msg(m);
  free(m);
}
static int fits(int src, int tag, uint32_t ctx, const msg *m) {
  return ctx == m->ctx && (src == MPI_ANY_SOURCE || src == m->src) &&
         (tag == MPI_ANY_TAG ? m->tag >= 0 : tag == m->tag);
}
static void deliver(msg *m) {
  trace("deliver %d->%d tag %d (%u bytes)\n", m->src, m->dst, m->tag, m->len);
  /* arrival order among the messages of a process: move it behind the others that arrived */
  unlink_msg(m);
  m->next = NULL;
  *Mtail = m;
  Mtail = &m->next;
  m->state = 1;
  for (req *q = Q; q; q = q->next)
    if (q->kind == 2 && !q->done && !q->cancelled && q->rank == m->dst && fits(q->src, q->tag, q->ctx, m)) {
      match(m, q);
      return;
    }
}
static msg *arrived(int dst, int src, int tag, uint32_t ctx) {
  for (msg *m = M; m; m = m->next)
    if (m->state == 1 && m->dst == dst && fits(src, tag, ctx, m)) return m;
  return NULL;
}
static int coll_ready(const coll *c, int me, int late) {
  int all = c->nin == c->size;
  if (late) return all;
  switch (c->kind) {
  case C_INIT:
  case C_FINALIZE: return 1;
  case C_BCAST:
  case C_SCATTER: return c->c[c->root].in;
  case C_REDUCE:
  case C_GATHER: return me == c->root ? all : 1;
  case C_SCAN:
  case C_EXSCAN:
    for (int i = 0; i <= me; i++)
      if (!c->c[i].in) return 0;
    return 1;
  default: return all;
  }
}
static int me_in(const coll *c, int rank) {
  for (int i = 0; i < c->size; i++)
    if (c->members[i] == rank) return i;
  return -1;
}
static int req_ready(req *q) {
  if (q->kind == 3) return coll_ready(q->c, me_in(q->c, q->rank), q->late);
  return q->done || q->cancelled;
}
static void log_payload(int src, int dst, int tag, const uint8_t *d, uint32_t len) {
  if (sim_S->log_len + 16 + len > SIM_LOGCAP) return;
  uint32_t h[4] = {(uint32_t)src, (uint32_t)dst, (uint32_t)tag, len};
  memcpy(sim_S->log + sim_S->log_len, h, 16);
  memcpy(sim_S->log + sim_S->log_len + 16, d, len);
  sim_S->log_len += 16 + len;
}
static int put_in(rq *p, done_t *d, const uint8_t *b, uint32_t n) {
  if ((size_t)p->inlen + n > INMAX) {
    verdict(V_UNSUPPORTED, "too much data in one call");
    return 0;
  }
  memcpy(p->in + p->inlen, b, n);
  d->off = p->inlen;
  d->len = n;
  p->inlen += n;
  return 1;
}
/* what a finished collective gives this process: number of blocks, then length and data of each */
static void coll_answer(rq *p, done_t *d, coll *c, int me) {
  uint32_t start = p->inlen;
  int want_all = 0, one = -1;
  switch (c->kind) {
  case C_BCAST: one = c->root; break;
  case C_REDUCE:
  case C_GATHER: want_all = me == c->root; break;
  case C_ALLREDUCE:
  case C_ALLGATHER:
  case C_RSCATTER:
  case C_SCAN:
  case C_EXSCAN:
  case C_COMM: want_all = 1; break;
  default: break;
  }
  d->extra = c->order;
  d->inst = c->inst;
  for (int i = 0; i < c->size; i++) {
    contrib *k = &c->c[i];
    const uint8_t *b = k->data;
    uint32_t n = 0;
    int use = 0;
    if ((want_all && k->in) || i == one) {
      n = k->len;
      use = 1;
    } else if (c->kind == C_SCATTER || c->kind == C_ALLTOALL) {
      if (c->kind == C_ALLTOALL || i == c->root) {
        for (int j = 0; j < me; j++) b += k->chunk[j];
        n = k->chunk[me];
        use = 1;
      }
    }
    if (!use) n = 0;
    done_t t;
    if (!put_in(p, &t, (uint8_t *)&n, 4) || (n && !put_in(p, &t, b, n))) return;
  }
  d->off = start;
  d->len = p->inlen - start;
}
/* a completed request goes back to its process */
static void give(rq *p, req *q) {
  done_t *d = &p->done[p->ndone++];
  memset(d, 0, sizeof *d);
  d->id = q->id;
  d->src = q->src;
  d->tag = q->tag;
  d->cancelled = (uint32_t)q->cancelled;
  if (q->kind == 3)
    coll_answer(p, d, q->c, me_in(q->c, q->rank));
  else if (q->kind == 2 && q->done)
    put_in(p, d, q->data, q->len);
  drop_req(q->id);
}
static int wait_ready(rq *p) {
  uint32_t n = 0;
  for (uint32_t i = 0; i < p->nids; i++) {
    req *q = find_req(p->ids[i]);
    if (q && req_ready(q)) n++;
  }
  return p->mode == W_ALL ? n == p->nids : n > 0;
}
static void do_coll(int r, rq *p) {
  uint32_t ctx = p->ctx & 255;
  uint32_t seq = (p->kind == C_INIT || p->kind == C_FINALIZE) ? 0xffff0000u + (uint32_t)p->kind : R[r].seqs[ctx]++;
  coll *c = C;
  while (c && !(c->ctx == p->ctx && c->seq == seq)) c = c->next;
  if (p->kind == C_INIT && R[r].inits++) return verdict(V_MPI, "init: process %d initialises MPI twice", r);
  if (p->kind == C_FINALIZE && R[r].fins++) return verdict(V_MPI, "finalize: process %d finalises MPI twice", r);
  if (!c) {
    c = calloc(1, sizeof *c);
    c->next = C;
    C = c;
    c->ctx = p->ctx;
    c->seq = seq;
    c->kind = (uint32_t)p->kind;
    c->root = p->root;
    c->rop = p->rop;
    c->size = p->csize;
    c->inst = ++next_inst;
    memcpy(c->members, p->members, sizeof c->members);
    c->order = sim_decide(S_REDUCE, sim_S->asked[S_REDUCE], 4);
    sim_S->net_colls++;
  }
  int me = p->me;
  trace("%d enters %s\n", r, cname[p->kind]);
  if (c->kind != (uint32_t)p->kind || c->root != p->root)
    return verdict(V_MPI, "collective: process %d calls %s (root %d) while another calls %s (root %d)", r,
                   cname[p->kind], p->root, cname[c->kind], c->root);
  if (c->rop != p->rop) return verdict(V_MPI, "collective: process %d uses another operation in %s", r, cname[p->kind]);
  contrib *k = &c->c[me];
  k->in = 1;
  c->nin++;
  k->len = p->outlen;
  k->nch = p->nchunks;
  k->sig = p->sig;
  k->nsig = p->nsig;
  memcpy(k->chunk, p->chunk, sizeof k->chunk);
  memcpy(k->chunksig, p->chunksig, sizeof k->chunksig);
  k->data = malloc(p->outlen + 1);
  memcpy(k->data, p->out, p->outlen);
  /* do the arguments agree? nsig is the number of bytes this process sends or expects */
  for (int i = 0; i < c->size; i++) {
    contrib *o = &c->c[i];
    if (i == me || !o->in) continue;
    int ok = 1;
    switch (c->kind) {
    case C_BCAST:
    case C_REDUCE:
    case C_ALLREDUCE:
    case C_SCAN:
    case C_EXSCAN:
    case C_ALLGATHER:
    case C_RSCATTER: ok = o->nsig == k->nsig && compatible(o->sig, 0, k->sig, 0); break;
    case C_GATHER:
    case C_SCATTER: /* chunk[]: what the root expects from or sends to each; nsig: of the others */
      if (me == c->root) ok = k->chunk[i] == o->nsig && compatible(k->chunksig[i], 0, o->sig, 0);
      if (i == c->root) ok = o->chunk[me] == k->nsig && compatible(o->chunksig[me], 0, k->sig, 0);
      break;
    default: break;
    }
    if (!ok)
      return verdict(V_MPI, "collective: processes %d and %d disagree about size or type in %s (%llu and %llu bytes)",
                     c->members[me], c->members[i], cname[c->kind], (unsigned long long)k->nsig,
                     (unsigned long long)o->nsig);
  }
  req *q = new_req(r, 3);
  q->c = c;
  q->late = (int)sim_decide(S_COLL, sim_S->asked[S_COLL], 2);
  p->rid = q->id;
}
static void kill_rank(int r) {
  if (R[r].st == ST_GONE) return;
  kill(R[r].pid, SIGKILL);
}
static void reap(int r) {
  int st = 0;
  while (waitpid(R[r].pid, &st, 0) < 0 && errno == EINTR) {}
  close(R[r].fd);
  R[r].st = ST_GONE;
  R[r].since = 0;
  sim_S->proc[r].status = st;
  sim_S->proc[r].exited = 1;
  trace("%d ends with status %x\n", r, (unsigned)st);
  if (sim_S->proc[r].verdict) {
    over = 1; /* the process itself found what is wrong */
    return;
  }
  /* receives of a dead process go */
  for (req **p = &Q; *p;)
    if ((*p)->rank == r) {
      req *q = *p;
      *p = q->next;
      free(q->data);
      free(q);
    } else
      p = &(*p)->next;
  if (st) {
    any_dead = 1;
    if (!killing) {
      killing = 1;
      kill_no = act_no;
      kill_since = ++stamp;
    }
  } else if (R[r].inits && !R[r].fins)
    verdict(V_MPI, "no-finalize: process %d ends without finalising MPI", r);
}
static void crash(int r) {
  trace("%d dies\n", r);
  sim_S->ncrashed++;
  sim_S->crashed_rank = (uint32_t)r;
  kill_rank(r);
  /* messages on the way may be lost: of every channel a part at the end */
  for (int d = 0; d < NR; d++) {
    int lost = 0;
    for (msg *m = M, *n; m; m = n) {
      n = m->next;
      if (m->src != r || m->dst != d || m->state) continue;
      if (!lost) lost = (int)sim_decide(S_DROP, sim_S->asked[S_DROP], 2);
      if (lost) {
        trace("message %d->%d is lost\n", m->src, m->dst);
        unlink_msg(m);
        free(m->data);
        free(m);
      }
    }
  }
}
/* let process r run until it waits or ends */
static void run_rank(int r) {
  R[r].since = 0;
  rq *p = part(r);
  if (!wr1(R[r].fd)) {
    reap(r);
    return;
  }
  for (;;) {
    if (!rd1(R[r].fd)) {
      reap(r);
      return;
    }
    if (sim_decide(S_CRASH, sim_S->asked[S_CRASH], 2)) {
      crash(r);
      reap(r);
      return;
    }
    p->ndone = 0;
    p->inlen = 0;
    switch (p->op) {
    case Q_SEND: {
      if (p->dst < 0 || p->dst >= NR) {
        verdict(V_MPI, "rank: process %d sends to process %d of %d", r, p->dst, NR);
        return;
      }
      sim_S->net_msgs++;
      log_payload(r, p->dst, p->tag, p->out, p->outlen);
      req *q = new_req(r, 1);
      msg *m = calloc(1, sizeof *m);
      m->id = ++next_id;
      m->src = r;
      m->dst = p->dst;
      m->tag = p->tag;
      m->ctx = p->ctx;
      m->len = p->outlen;
      m->sig = p->sig;
      m->nsig = p->nsig;
      m->data = malloc(p->outlen + 1);
      memcpy(m->data, p->out, p->outlen);
      m->stamp = ++stamp;
      int sync = p->mode == 1 || (p->mode == 0 && sim_decide(S_EAGER, sim_S->asked[S_EAGER], 2));
      if (sync)
        m->sreq = q->id;
      else
        q->done = 1;
      trace("%d sends to %d tag %d (%u bytes%s)\n", r, m->dst, m->tag, m->len, sync ? ", synchronous" : "");
      *Mtail = m;
      Mtail = &m->next;
      p->rid = q->id;
      break;
    }
    case Q_RECV: {
      if (p->src != MPI_ANY_SOURCE && (p->src < 0 || p->src >= NR)) {
        verdict(V_MPI, "rank: process %d receives from process %d of %d", r, p->src, NR);
        return;
      }
      req *q = new_req(r, 2);
      q->src = p->src;
      q->tag = p->tag;
      q->ctx = p->ctx;
      q->cap = p->cap;
      q->sig = p->sig;
      q->nsig = p->nsig;
      p->rid = q->id;
      msg *m = arrived(r, p->src, p->tag, p->ctx);
      if (m) match(m, q);
      break;
    }
    case Q_MRECV: {
      req *q = new_req(r, 2);
      q->cap = p->cap;
      q->sig = p->sig;
      q->nsig = p->nsig;
      p->rid = q->id;
      msg *m = M;
      while (m && m->id != p->id) m = m->next;
      if (!m) {
        verdict(V_MPI, "message: process %d receives a message it has not probed", r);
        return;
      }
      match(m, q);
      break;
    }
    case Q_CANCEL: {
      req *q = find_req(p->id);
      if (q && q->kind == 2 && !q->done) q->cancelled = 1;
      break;
    }
    case Q_FREE: {
      req *q = find_req(p->id);
      if (q && q->done) drop_req(p->id);
      break;
    }
    case Q_COLL: do_coll(r, p); break;
    case Q_ABORT:
      trace("%d aborts\n", r);
      any_dead = 1;
      if (!killing) {
        killing = 1;
        kill_no = act_no;
        kill_since = ++stamp;
      }
      break;
    case Q_WAIT:
    case Q_PROBE: R[r].st = ST_BLOCKED; return;
    default: verdict(V_INTERNAL, "request %u", p->op);
    }
    if (over) return;
    if (!wr1(R[r].fd)) {
      reap(r);
      return;
    }
  }
}
static int blocked_ready(int r) {
  rq *p = part(r);
  if (p->poll) return 1;
  if (p->op == Q_WAIT) return wait_ready(p);
  return arrived(r, p->src, p->tag, p->ctx) != NULL;
}
static void finish_call(int r) {
  rq *p = part(r);
  p->ndone = 0;
  p->inlen = 0;
  p->found = 0;
  if (p->op == Q_WAIT) {
    if (wait_ready(p)) {
      p->found = 1;
      for (uint32_t i = 0; i < p->nids && !over; i++) {
        req *q = find_req(p->ids[i]);
        if (q && req_ready(q)) {
          give(p, q);
          if (p->mode == W_ANY) break;
        }
      }
    }
  } else {
    msg *m = arrived(r, p->src, p->tag, p->ctx);
    if (m) {
      p->found = 1;
      p->psrc = m->src;
      p->ptag = m->tag;
      p->plen = m->len;
      p->psig = m->sig;
      p->pnsig = m->nsig;
      p->pmsg = m->id;
      if (p->probe) m->state = 2;
    }
  }
  trace("%d goes on\n", r);
}
typedef struct { int kind, r; msg *m; uint64_t since; } act; /* 0 resume 1 deliver 2 kill */
#define MAXACT 4096
static act A[MAXACT];
static int nA;
static void list_actions(void) {
  nA = 0;
  for (int r = 0; r < NR; r++) {
    if (R[r].st == ST_GONE) continue;
    if (R[r].st == ST_READY || blocked_ready(r)) {
      if (!R[r].since) R[r].since = ++stamp;
      A[nA++] = (act){0, r, NULL, R[r].since};
    } else
      R[r].since = 0;
  }
  for (msg *m = M; m && nA < MAXACT - 1; m = m->next) {
    if (m->state) continue;
    int first = 1;
    for (msg *o = M; o != m; o = o->next)
      if (!o->state && o->src == m->src && o->dst == m->dst && o->ctx == m->ctx) first = 0;
    if (first) A[nA++] = (act){1, m->dst, m, m->stamp};
  }
  /* sometimes those who are left are killed late */
  if (killing && !(kill_late && nA && act_no < kill_no + 12000)) {
    int alive = 0;
    for (int r = 0; r < NR; r++) alive += R[r].st != ST_GONE;
    if (alive) A[nA++] = (act){2, -1, NULL, kill_since};
  }
  for (int i = 1; i < nA; i++)
    for (int j = i; j && A[j - 1].since > A[j].since; j--) {
      act t = A[j];
      A[j] = A[j - 1];
      A[j - 1] = t;
    }
}
static int choose(uint64_t no) {
  sim_shm *S = sim_S;
  int policy = (int)S->mpi_policy;
  uint32_t fl = S->mpi_flags;
  if (no > 30000 || nA == 1) return 0;
  if (policy == 5) policy = (int)(sim_mix(S->seed, no / (1 + (fl >> 8) % 7)) % 8);
  switch (policy) {
  case 1: return 0;
  case 2: return nA - 1;
  case 3: {
    int victim = (int)((fl & 255) % (unsigned)NR), k[MAXACT], n = 0;
    for (int i = 0; i < nA; i++)
      if (A[i].r != victim) k[n++] = i;
    return n ? k[sim_rand64(&pol_rng) % (uint64_t)n] : (int)(sim_rand64(&pol_rng) % (uint64_t)nA);
  }
  case 4: {
    if (no % 97 == 96) return 0;
    int best = 0;
    uint64_t bp = 0;
    for (int i = 0; i < nA; i++) {
      uint64_t pr = 1 + sim_mix(S->seed, 1000 + (uint64_t)(A[i].r + 1)) % 1000000;
      if (pr > bp) {
        bp = pr;
        best = i;
      }
    }
    return best;
  }
  case 6: /* the network is slow */
  case 7: { /* the processes are slow */
    if (no % 97 == 96) return 0;
    int want = policy == 6 ? 0 : 1, k[MAXACT], n = 0;
    for (int i = 0; i < nA; i++)
      if (A[i].kind == want) k[n++] = i;
    if (n) return k[sim_rand64(&pol_rng) % (uint64_t)n];
  } /* fall through */
  default: return (int)(sim_rand64(&pol_rng) % (uint64_t)nA);
  }
}
static void free_all(void) {
  while (M) {
    msg *m = M;
    M = m->next;
    free(m->data);
    free(m);
  }
  while (Q) drop_req(Q->id);
  while (C) {
    coll *c = C;
    C = c->next;
    for (int i = 0; i < SIM_MAXRANKS; i++) free(c->c[i].data);
    free(c);
  }
}
static int replay_choice(uint64_t no, int *pick) {
  uint64_t lo = 0, hi = sim_S->ndec_in;
  while (lo < hi) {
    uint64_t m = (lo + hi) / 2;
    const sim_dec *d = &sim_S->dec_in[m];
    if (d->stream < S_NET || (d->stream == S_NET && d->index < no)) lo = m + 1;
    else hi = m;
  }
  if (lo < sim_S->ndec_in && sim_S->dec_in[lo].stream == S_NET && sim_S->dec_in[lo].index == no) {
    *pick = (int)sim_S->dec_in[lo].value;
    return 1;
  }
  return 0;
}
int sim_mpi_run(void) {
  sim_shm *S = sim_S;
  NR = (int)S->nranks;
  memset(R, 0, sizeof R);
  M = NULL;
  Mtail = &M;
  Q = NULL;
  C = NULL;
  next_id = 0;
  stamp = 0;
  next_inst = 0;
  killing = over = any_dead = 0;
  kill_late = (S->mpi_flags >> 20) % 3 == 0;
  act_no = kill_no = 0;
  pol_rng = sim_mix(S->seed, 0x6e6574);
  for (int r = 0; r < NR; r++) {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) sim_fail(V_INTERNAL, "socketpair");
    memset(part(r), 0, 4096);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      struct rlimit nocore = {0, 0};
      setrlimit(RLIMIT_CORE, &nocore);
      close(199);
      for (int i = 0; i < r; i++) close(R[i].fd);
      close(sv[0]);
      my_fd = sv[1];
      if (!rd1(my_fd)) _exit(0);
      sim_begin(r);
      return 1;
    }
    close(sv[1]);
    R[r].fd = sv[0];
    R[r].pid = pid;
    R[r].st = ST_READY;
  }
  uint64_t no = 0;
  while (!over) {
    act_no = no;
    list_actions();
    if (!nA) {
      int alive = 0, o = 0;
      char b[300] = "";
      for (int r = 0; r < NR; r++)
        if (R[r].st != ST_GONE) {
          alive++;
          rq *p = part(r);
          if (o < 250)
            o += snprintf(b + o, sizeof b - (size_t)o, " %d:%s", r,
                          p->op == Q_PROBE ? "probe" : "wait");
        }
      if (alive) verdict(V_DEADLOCK, "every process waits:%s", b);
      break;
    }
    if (no >= 400000) {
      verdict(V_STEPLIMIT, "no end after %llu network actions", (unsigned long long)no);
      break;
    }
    int pick = 0;
    if (S->replay) {
      if (!replay_choice(no, &pick) || pick >= nA) pick = 0;
    } else
      pick = choose(no);
    if (pick) {
      if (S->ndec_out < SIM_DECCAP)
        S->dec_out[S->ndec_out++] = (sim_dec){S_NET, (uint32_t)pick, no};
      else
        S->dec_overflow++;
    }
    no++;
    act a = A[pick];
    S->net_hash = sim_mix(S->net_hash, ((uint64_t)a.kind << 32) ^ ((uint64_t)(a.r + 1) << 16) ^
                                           (a.m ? (uint64_t)a.m->src * 97 + (uint64_t)(uint32_t)a.m->tag : 0));
    S->net_clock_ns += 1000 + sim_mix(S->seed, no) % 20000;
    if (a.kind == 1)
      deliver(a.m);
    else if (a.kind == 2) {
      trace("the rest is killed\n");
      for (int r = 0; r < NR; r++)
        if (R[r].st != ST_GONE) {
          kill_rank(r);
          reap(r);
        }
    } else {
      if (R[a.r].st == ST_BLOCKED) finish_call(a.r);
      if (!over) run_rank(a.r);
    }
  }
  S->net_actions = no;
  for (int r = 0; r < NR; r++)
    if (R[r].st != ST_GONE) {
      kill_rank(r);
      int st;
      while (waitpid(R[r].pid, &st, 0) < 0 && errno == EINTR) {}
      close(R[r].fd);
      S->proc[r].status = st;
      R[r].st = ST_GONE;
    }
  if (!over && !any_dead) {
    int ni = 0;
    for (int r = 0; r < NR; r++) ni += R[r].inits > 0;
    if (ni && ni != NR) verdict(V_MPI, "init: %d of %d processes initialise MPI", ni, NR);
    if (M) verdict(V_MPI, "unreceived: message from %d to %d (tag %d) was never received", M->src, M->dst, M->tag);
    for (coll *c = C; c && !over; c = c->next)
      if (c->nin != c->size)
        verdict(V_MPI, "collective: %d of %d processes take part in %s", c->nin, c->size, cname[c->kind]);
  }
  free_all();
  return 0;
}

/* ================================================================== ranks: datatypes */
enum { B_BYTE = 0, B_INT, B_UINT, B_FLT, B_BOOL, B_CPLX, B_LDBL };
typedef struct { int64_t off; uint8_t cls, size; } ent;
typedef struct {
  uint32_t magic, n;
  ent *e;
  int64_t lb, extent, size;
  int dense;
} ty;
#define TYMAGIC 0x7479dead
#define FAIL(...) sim_fail(V_MPI, __VA_ARGS__)
#define NOTYET(x) sim_fail(V_UNSUPPORTED, "%s", x)
typedef struct { void *h; uint8_t cls, size; } pre_t;
static const pre_t pre[] = {
    {MPI_CHAR, B_BYTE, 1}, {MPI_SIGNED_CHAR, B_INT, 1}, {MPI_UNSIGNED_CHAR, B_UINT, 1}, {MPI_BYTE, B_BYTE, 1},
    {MPI_PACKED, B_BYTE, 1}, {MPI_SHORT, B_INT, 2}, {MPI_UNSIGNED_SHORT, B_UINT, 2}, {MPI_INT, B_INT, 4},
    {MPI_UNSIGNED, B_UINT, 4}, {MPI_LONG, B_INT, 8}, {MPI_UNSIGNED_LONG, B_UINT, 8}, {MPI_LONG_LONG, B_INT, 8},
    {MPI_UNSIGNED_LONG_LONG, B_UINT, 8}, {MPI_FLOAT, B_FLT, 4}, {MPI_DOUBLE, B_FLT, 8}, {MPI_LONG_DOUBLE, B_LDBL, 16},
    {MPI_INT8_T, B_INT, 1}, {MPI_INT16_T, B_INT, 2}, {MPI_INT32_T, B_INT, 4}, {MPI_INT64_T, B_INT, 8},
    {MPI_UINT8_T, B_UINT, 1}, {MPI_UINT16_T, B_UINT, 2}, {MPI_UINT32_T, B_UINT, 4}, {MPI_UINT64_T, B_UINT, 8},
    {MPI_C_BOOL, B_BOOL, 1}, {MPI_CXX_BOOL, B_BOOL, 1}, {MPI_C_FLOAT_COMPLEX, B_CPLX, 8}, {MPI_C_COMPLEX, B_CPLX, 8},
    {MPI_C_DOUBLE_COMPLEX, B_CPLX, 16}, {MPI_WCHAR, B_INT, 4}, {MPI_AINT, B_INT, 8}, {MPI_OFFSET, B_INT, 8},
    {MPI_COUNT, B_INT, 8}};
#define NPRE (sizeof pre / sizeof *pre)
static ty pty[NPRE];
static ent pent[NPRE];
/* value and index */
static const struct { void *h; uint8_t cls, size, off; } pairs[] = {
    {MPI_2INT, B_INT, 4, 4}, {MPI_DOUBLE_INT, B_FLT, 8, 8}, {MPI_FLOAT_INT, B_FLT, 4, 4}, {MPI_LONG_INT, B_INT, 8, 8},
    {MPI_SHORT_INT, B_INT, 2, 4}};
static ty pairty[5];
static ent pairent[5][2];
static ty *T_(MPI_Datatype d) {
  for (unsigned i = 0; i < NPRE; i++)
    if ((void *)d == pre[i].h) {
      if (!pty[i].magic) {
        pent[i] = (ent){0, pre[i].cls, pre[i].size};
        pty[i] = (ty){TYMAGIC, 1, &pent[i], 0, pre[i].size, pre[i].size, 1};
      }
      return &pty[i];
    }
  for (int i = 0; i < 5; i++)
    if ((void *)d == pairs[i].h) {
      if (!pairty[i].magic) {
        pairent[i][0] = (ent){0, pairs[i].cls, pairs[i].size};
        pairent[i][1] = (ent){pairs[i].off, B_INT, 4};
        int64_t ext = (pairs[i].off + 4 + pairs[i].size - 1) / pairs[i].size * pairs[i].size;
        if (pairs[i].size < 4) ext = 8;
        pairty[i] = (ty){TYMAGIC, 2, pairent[i], 0, ext, pairs[i].size + 4, 0};
      }
      return &pairty[i];
    }
  ty *t = (ty *)d;
  if (!t || (void *)d == (void *)MPI_DATATYPE_NULL || t->magic != TYMAGIC) FAIL("type: not a datatype");
  return t;
}
static void settle(ty *t) {
  t->size = 0;
  t->dense = 1;
  int64_t lo = INT64_MAX, hi = INT64_MIN;
  for (uint32_t i = 0; i < t->n; i++) {
    if (t->e[i].off != t->size) t->dense = 0;
    t->size += t->e[i].size;
    if (t->e[i].off < lo) lo = t->e[i].off;
    if (t->e[i].off + t->e[i].size > hi) hi = t->e[i].off + t->e[i].size;
  }
  if (!t->n) lo = hi = 0;
  t->lb = lo;
  t->extent = hi - lo;
  t->dense = t->dense && lo == 0;
}
static ty *new_ty(uint32_t n) {
  if (n > (1u << 22)) NOTYET("huge datatype");
  ty *t = calloc(1, sizeof *t);
  t->magic = TYMAGIC;
  t->n = n;
  t->e = calloc(n + 1, sizeof(ent));
  return t;
}
static void span(const ty *t, int64_t *lo, int64_t *hi, int64_t at) {
  if (!t->n && !t->extent) return;
  if (at + t->lb < *lo) *lo = at + t->lb;
  if (at + t->lb + t->extent > *hi) *hi = at + t->lb + t->extent;
}
/* blocks of old types at byte offsets */
static ty *build(int nb, const int64_t *cnt, const int64_t *disp, ty *const *old, int structy) {
  uint64_t n = 0;
  for (int i = 0; i < nb; i++) n += (uint64_t)cnt[i] * old[i]->n;
  ty *t = new_ty((uint32_t)n);
  uint32_t k = 0;
  int64_t lo = INT64_MAX, hi = INT64_MIN;
  for (int i = 0; i < nb; i++)
    for (int64_t c = 0; c < cnt[i]; c++) {
      span(old[i], &lo, &hi, disp[i] + c * old[i]->extent);
      for (uint32_t j = 0; j < old[i]->n; j++) {
        t->e[k] = old[i]->e[j];
        t->e[k++].off += disp[i] + c * old[i]->extent;
      }
    }
  settle(t);
  if (lo == INT64_MAX) lo = hi = 0;
  t->lb = lo;
  t->extent = hi - lo;
  if (structy) { /* alignment padding, like a C struct */
    int64_t al = 1;
    for (uint32_t j = 0; j < t->n; j++) {
      int64_t s = t->e[j].cls == B_CPLX ? t->e[j].size / 2 : t->e[j].size;
      if (s > al) al = s;
    }
    t->extent = (t->extent + al - 1) / al * al;
  }
  if (t->lb || t->extent != t->size) t->dense = 0;
  return t;
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *out) {
  ty *t = T_(o);
  int64_t c = n, d = 0;
  *out = (MPI_Datatype)build(1, &c, &d, &t, 0);
  return 0;
}
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype *out) {
  ty *t = T_(o), **ts = calloc((size_t)n + 1, sizeof *ts);
  int64_t *c = calloc((size_t)n + 1, 8), *d = calloc((size_t)n + 1, 8);
  for (int i = 0; i < n; i++) ts[i] = t, c[i] = bl, d[i] = i * st;
  *out = (MPI_Datatype)build(n, c, d, ts, 0);
  free(ts);
  free(c);
  free(d);
  return 0;
}
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype *out) {
  return MPI_Type_create_hvector(n, bl, st * T_(o)->extent, o, out);
}
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *disp, const MPI_Datatype *o, MPI_Datatype *out) {
  ty **ts = calloc((size_t)n + 1, sizeof *ts);
  int64_t *c = calloc((size_t)n + 1, 8), *d = calloc((size_t)n + 1, 8);
  for (int i = 0; i < n; i++) ts[i] = T_(o[i]), c[i] = bl[i], d[i] = disp[i];
  *out = (MPI_Datatype)build(n, c, d, ts, 1);
  free(ts);
  free(c);
  free(d);
  return 0;
}
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *disp, MPI_Datatype o, MPI_Datatype *out) {
  ty *t = T_(o), **ts = calloc((size_t)n + 1, sizeof *ts);
  int64_t *c = calloc((size_t)n + 1, 8), *d = calloc((size_t)n + 1, 8);
  for (int i = 0; i < n; i++) ts[i] = t, c[i] = bl[i], d[i] = disp[i];
  *out = (MPI_Datatype)build(n, c, d, ts, 0);
  free(ts);
  free(c);
  free(d);
  return 0;
}
int MPI_Type_indexed(int n, const int *bl, const int *disp, MPI_Datatype o, MPI_Datatype *out) {
  MPI_Aint *d = calloc((size_t)n + 1, sizeof *d);
  for (int i = 0; i < n; i++) d[i] = disp[i] * T_(o)->extent;
  int r = MPI_Type_create_hindexed(n, bl, d, o, out);
  free(d);
  return r;
}
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint *disp, MPI_Datatype o, MPI_Datatype *out) {
  int *b = calloc((size_t)n + 1, sizeof *b);
  for (int i = 0; i < n; i++) b[i] = bl;
  int r = MPI_Type_create_hindexed(n, b, disp, o, out);
  free(b);
  return r;
}
int MPI_Type_create_indexed_block(int n, int bl, const int *disp, MPI_Datatype o, MPI_Datatype *out) {
  int *b = calloc((size_t)n + 1, sizeof *b);
  for (int i = 0; i < n; i++) b[i] = bl;
  int r = MPI_Type_indexed(n, b, disp, o, out);
  free(b);
  return r;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype *out) {
  ty *s = T_(o);
  ty *t = new_ty(s->n);
  memcpy(t->e, s->e, s->n * sizeof(ent));
  settle(t);
  t->lb = lb;
  t->extent = ext;
  if (lb || t->extent != t->size) t->dense = 0;
  *out = (MPI_Datatype)t;
  return 0;
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *out) {
  ty *s = T_(o);
  ty *t = new_ty(s->n);
  memcpy(t->e, s->e, s->n * sizeof(ent));
  t->lb = s->lb;
  t->extent = s->extent;
  t->size = s->size;
  t->dense = s->dense;
  *out = (MPI_Datatype)t;
  return 0;
}
int MPI_Type_commit(MPI_Datatype *d) { T_(*d); return 0; }
int MPI_Type_free(MPI_Datatype *d) {
  ty *t = T_(*d);
  for (unsigned i = 0; i < NPRE; i++)
    if (t == &pty[i]) FAIL("type: a predefined type is freed");
  t->magic = 0;
  free(t->e);
  free(t);
  *d = MPI_DATATYPE_NULL;
  return 0;
}
int MPI_Type_size(MPI_Datatype d, int *s) { *s = (int)T_(d)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype d, MPI_Aint *lb, MPI_Aint *ext) {
  *lb = T_(d)->lb;
  *ext = T_(d)->extent;
  return 0;
}
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
static uint64_t bytes(const ty *t, int n) { return (uint64_t)t->size * (uint64_t)n; }
static uint32_t pack(const ty *t, int n, const void *buf, uint8_t *out, uint64_t cap) {
  if (n < 0) FAIL("argument: a count is negative");
  if (bytes(t, n) > cap) NOTYET("a message that big");
  uint8_t *o = out;
  if (t->dense) {
    memcpy(o, buf, bytes(t, n));
    return (uint32_t)bytes(t, n);
  }
  for (int i = 0; i < n; i++)
    for (uint32_t j = 0; j < t->n; j++) {
      memcpy(o, (const uint8_t *)buf + i * t->extent + t->e[j].off, t->e[j].size);
      o += t->e[j].size;
    }
  return (uint32_t)(o - out);
}
/* as many whole basic elements as there are */
static void unpack(const ty *t, void *buf, const uint8_t *in, uint64_t len) {
  if (t->dense) {
    memcpy(buf, in, len);
    return;
  }
  for (int64_t i = 0; len && t->size; i++)
    for (uint32_t j = 0; j < t->n; j++) {
      if (len < t->e[j].size) return;
      memcpy((uint8_t *)buf + i * t->extent + t->e[j].off, in, t->e[j].size);
      in += t->e[j].size;
      len -= t->e[j].size;
    }
}
/* type signature; 0 if only bytes */
static uint64_t sig_of(const ty *t, int n) {
  uint64_t h = 0;
  int plain = 1;
  for (int i = 0; i < n; i++)
    for (uint32_t j = 0; j < t->n; j++) {
      uint8_t c = t->e[j].cls == B_UINT ? B_INT : t->e[j].cls;
      if (c != B_BYTE) plain = 0;
      h = sim_mix(h, (uint64_t)c << 8 | t->e[j].size);
    }
  return plain ? 0 : h | 1;
}

/* ------------------------------------------------------------------ talking to the controller */
static int mpi_state, mpi_level; /* 0 before init 1 in use 2 finalised */
static int main_thread;
static void enter(const char *name) {
  sim_event();
  if (mpi_state == 0) FAIL("init: %s before MPI is initialised", name);
  if (mpi_state == 2) FAIL("finalize: %s after MPI is finalised", name);
  if (mpi_level < MPI_THREAD_SERIALIZED && sim_thread_id() != main_thread)
    FAIL("thread: %s in a thread that did not initialise MPI", name);
}
static rq *P_(void) { return part(sim_rank); }
static void ask(uint32_t op) {
  P_()->op = op;
  if (!wr1(my_fd) || !rd1(my_fd)) {
    for (;;) sys3(SYS_pause, 0, 0, 0); /* the controller is gone; so are we */
  }
}
/* ------------------------------------------------------------------ communicators and groups */
typedef struct { uint32_t magic, ctx; int size, me; int m[SIM_MAXRANKS]; char name[64]; int nfree; } comm;
#define COMAGIC 0xc0337711
static comm world, self_;
static comm *Cm(MPI_Comm c) {
  if (!world.magic) {
    world.magic = self_.magic = COMAGIC;
    world.size = (int)(sim_S->nranks ? sim_S->nranks : 1);
    for (int i = 0; i < world.size; i++) world.m[i] = i;
    world.me = sim_rank;
    self_.ctx = 1;
    self_.size = 1;
    self_.m[0] = sim_rank;
    strcpy(world.name, "MPI_COMM_WORLD");
    strcpy(self_.name, "MPI_COMM_SELF");
  }
  if (c == MPI_COMM_WORLD) return &world;
  if (c == MPI_COMM_SELF) return &self_;
  comm *k = (comm *)c;
  if (!k || c == MPI_COMM_NULL || k->magic != COMAGIC) FAIL("comm: not a communicator");
  return k;
}
int MPI_Comm_size(MPI_Comm c, int *n) { enter("MPI_Comm_size"); *n = Cm(c)->size; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { enter("MPI_Comm_rank"); *r = Cm(c)->me; return 0; }
int MPI_Comm_set_name(MPI_Comm c, const char *n) { snprintf(Cm(c)->name, 64, "%s", n); return 0; }
int MPI_Comm_get_name(MPI_Comm c, char *n, int *len) { strcpy(n, Cm(c)->name); *len = (int)strlen(n); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { (void)c; (void)e; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
  comm *x = Cm(a), *y = Cm(b);
  if (x == y) *r = MPI_IDENT;
  else if (x->size != y->size) *r = MPI_UNEQUAL;
  else if (!memcmp(x->m, y->m, sizeof(int) * (size_t)x->size)) *r = MPI_CONGRUENT;
  else {
    *r = MPI_SIMILAR;
    for (int i = 0; i < x->size; i++) {
      int f = 0;
      for (int j = 0; j < y->size; j++) f |= x->m[i] == y->m[j];
      if (!f) *r = MPI_UNEQUAL;
    }
  }
  return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
  comm *k = Cm(*c);
  if (k == &world || k == &self_) FAIL("comm: a predefined communicator is freed");
  k->magic = 0;
  *c = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_test_inter(MPI_Comm c, int *f) { (void)Cm(c); *f = 0; return 0; }
int MPI_Topo_test(MPI_Comm c, int *s) { (void)Cm(c); *s = MPI_UNDEFINED; return 0; }
typedef struct { uint32_t magic; int n, m[SIM_MAXRANKS]; } grp;
#define GRMAGIC 0x96009155
static grp empty_g = {GRMAGIC, 0, {0}};
static grp *G_(MPI_Group g) {
  if (g == MPI_GROUP_EMPTY) return &empty_g;
  grp *k = (grp *)g;
  if (!k || g == MPI_GROUP_NULL || k->magic != GRMAGIC) FAIL("group: not a group");
  return k;
}
static grp *new_g(void) {
  grp *g = calloc(1, sizeof *g);
  g->magic = GRMAGIC;
  return g;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *out) {
  comm *k = Cm(c);
  grp *g = new_g();
  g->n = k->size;
  memcpy(g->m, k->m, sizeof g->m);
  *out = (MPI_Group)g;
  return 0;
}
int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g, int *n) { *n = G_(g)->n; return 0; }
int MPI_Group_rank(MPI_Group g, int *r) {
  grp *k = G_(g);
  *r = MPI_UNDEFINED;
  for (int i = 0; i < k->n; i++)
    if (k->m[i] == sim_rank) *r = i;
  return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *out) {
  grp *k = G_(g), *o = new_g();
  for (int i = 0; i < n; i++) {
    if (r[i] < 0 || r[i] >= k->n) FAIL("rank: group member %d of %d", r[i], k->n);
    o->m[o->n++] = k->m[r[i]];
  }
  *out = (MPI_Group)o;
  return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *out) {
  grp *k = G_(g), *o = new_g();
  for (int i = 0; i < k->n; i++) {
    int f = 0;
    for (int j = 0; j < n; j++) f |= r[j] == i;
    if (!f) o->m[o->n++] = k->m[i];
  }
  *out = (MPI_Group)o;
  return 0;
}
static int in_g(grp *g, int w) {
  for (int i = 0; i < g->n; i++)
    if (g->m[i] == w) return 1;
  return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *out) {
  grp *x = G_(a), *y = G_(b), *o = new_g();
  for (int i = 0; i < x->n; i++) o->m[o->n++] = x->m[i];
  for (int i = 0; i < y->n; i++)
    if (!in_g(x, y->m[i])) o->m[o->n++] = y->m[i];
  *out = (MPI_Group)o;
  return 0;
}
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *out) {
  grp *x = G_(a), *y = G_(b), *o = new_g();
  for (int i = 0; i < x->n; i++)
    if (in_g(y, x->m[i])) o->m[o->n++] = x->m[i];
  *out = (MPI_Group)o;
  return 0;
}
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *out) {
  grp *x = G_(a), *y = G_(b), *o = new_g();
  for (int i = 0; i < x->n; i++)
    if (!in_g(y, x->m[i])) o->m[o->n++] = x->m[i];
  *out = (MPI_Group)o;
  return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *r, MPI_Group b, int *out) {
  grp *x = G_(a), *y = G_(b);
  for (int i = 0; i < n; i++) {
    out[i] = MPI_UNDEFINED;
    for (int j = 0; j < y->n; j++)
      if (y->m[j] == x->m[r[i]]) out[i] = j;
  }
  return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r) {
  grp *x = G_(a), *y = G_(b);
  *r = MPI_UNEQUAL;
  if (x->n != y->n) return 0;
  if (!memcmp(x->m, y->m, sizeof(int) * (size_t)x->n)) *r = MPI_IDENT;
  else {
    *r = MPI_SIMILAR;
    for (int i = 0; i < x->n; i++)
      if (!in_g(y, x->m[i])) *r = MPI_UNEQUAL;
  }
  return 0;
}
static int to_world(comm *c, int r) {
  if (r < 0 || r >= c->size) FAIL("rank: %d is not a process of a communicator of %d", r, c->size);
  return c->m[r];
}
static int from_world(comm *c, int w) {
  for (int i = 0; i < c->size; i++)
    if (c->m[i] == w) return i;
  return MPI_ANY_SOURCE;
}

/* ------------------------------------------------------------------ operations */
typedef struct { uint32_t magic; MPI_User_function *fn; int commute; } uop;
#define OPMAGIC 0x0be12a70
static const struct { void *h; int k; } pops[] = {
    {MPI_MAX, 1}, {MPI_MIN, 2}, {MPI_SUM, 3}, {MPI_PROD, 4}, {MPI_LAND, 5}, {MPI_BAND, 6}, {MPI_LOR, 7},
    {MPI_BOR, 8}, {MPI_LXOR, 9}, {MPI_BXOR, 10}, {MPI_MAXLOC, 11}, {MPI_MINLOC, 12}};
static int op_kind(MPI_Op o) { /* 0: user */
  for (unsigned i = 0; i < sizeof pops / sizeof *pops; i++)
    if ((void *)o == pops[i].h) return pops[i].k;
  uop *u = (uop *)o;
  if (!u || o == MPI_OP_NULL || u->magic != OPMAGIC) FAIL("op: not an operation");
  return 0;
}
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *out) {
  uop *u = calloc(1, sizeof *u);
  u->magic = OPMAGIC;
  u->fn = f;
  u->commute = commute;
  *out = (MPI_Op)u;
  return 0;
}
int MPI_Op_free(MPI_Op *o) {
  if (op_kind(*o)) FAIL("op: a predefined operation is freed");
  ((uop *)*o)->magic = 0;
  free(*o);
  *o = MPI_OP_NULL;
  return 0;
}
int MPI_Op_commutative(MPI_Op o, int *c) { *c = op_kind(o) ? 1 : ((uop *)o)->commute; return 0; }
#define OPS(ty_, x, y, integer)                                       \
  do {                                                                \
    ty_ a_, b_, r_;                                                      \
    memcpy(&a_, x, sizeof a_);                                          \
    memcpy(&b_, y, sizeof b_);                                          \
    switch (k) {                                                      \
    case 1: r_ = a_ > b_ ? a_ : b_; break;                                 \
    case 2: r_ = a_ < b_ ? a_ : b_; break;                                 \
    case 3: r_ = (ty_)(a_ + b_); break;                                  \
    case 4: r_ = (ty_)(a_ * b_); break;                                  \
    case 5: r_ = (ty_)(a_ && b_); break;                                 \
    case 7: r_ = (ty_)(a_ || b_); break;                                 \
    case 9: r_ = (ty_)(!a_ != !b_); break;                               \
    case 6: r_ = (ty_)((uint64_t)a_ & (uint64_t)b_); ok = integer; break; \
    case 8: r_ = (ty_)((uint64_t)a_ | (uint64_t)b_); ok = integer; break; \
    case 10: r_ = (ty_)((uint64_t)a_ ^ (uint64_t)b_); ok = integer; break; \
    default: ok = 0; r_ = a_;                                           \
    }                                                                 \
    memcpy(y, &r_, sizeof r_);                                          \
  } while (0)
/* in (native layout) op io -> io */
static void apply(MPI_Op o, void *in, void *io, int n, MPI_Datatype d) {
  int k = op_kind(o), ok = 1;
  if (!k) {
    ((uop *)o)->fn(in, io, &n, &d);
    return;
  }
  ty *t = T_(d);
  for (int i = 0; i < n; i++) {
    uint8_t *x = (uint8_t *)in + i * t->extent, *y = (uint8_t *)io + i * t->extent;
    if (k >= 11) {
      if (t->n != 2) FAIL("op: MINLOC or MAXLOC of a type that is no pair");
      int c;
      int32_t p, q;
      memcpy(&p, x + t->e[1].off, 4);
      memcpy(&q, y + t->e[1].off, 4);
      double a = 0, b = 0;
      if (t->e[0].cls == B_FLT && t->e[0].size == 8) memcpy(&a, x, 8), memcpy(&b, y, 8);
      else if (t->e[0].cls == B_FLT) { float f, g; memcpy(&f, x, 4); memcpy(&g, y, 4); a = f; b = g; }
      else { int64_t f = 0, g = 0; int32_t u, v; if (t->e[0].size == 4) { memcpy(&u, x, 4); memcpy(&v, y, 4); f = u; g = v; } else { memcpy(&f, x, t->e[0].size); memcpy(&g, y, t->e[0].size); } a = (double)f; b = (double)g; }
      c = a == b ? p < q : k == 11 ? a > b : a < b;
      if (c) {
        memcpy(y, x, t->e[0].size);
        memcpy(y + t->e[1].off, &p, 4);
      }
      continue;
    }
    for (uint32_t j = 0; j < t->n && ok; j++) {
      uint8_t *a = x + t->e[j].off, *b = y + t->e[j].off;
      switch (t->e[j].cls << 8 | t->e[j].size) {
      case B_INT << 8 | 1: OPS(int8_t, a, b, 1); break;
      case B_INT << 8 | 2: OPS(int16_t, a, b, 1); break;
      case B_INT << 8 | 4: OPS(int32_t, a, b, 1); break;
      case B_INT << 8 | 8: OPS(int64_t, a, b, 1); break;
      case B_BOOL << 8 | 1:
      case B_BYTE << 8 | 1:
      case B_UINT << 8 | 1: OPS(uint8_t, a, b, 1); break;
      case B_UINT << 8 | 2: OPS(uint16_t, a, b, 1); break;
      case B_UINT << 8 | 4: OPS(uint32_t, a, b, 1); break;
      case B_UINT << 8 | 8: OPS(uint64_t, a, b, 1); break;
      case B_FLT << 8 | 4: OPS(float, a, b, 0); break;
      case B_FLT << 8 | 8: OPS(double, a, b, 0); break;
      default: NOTYET("operation on this type");
      }
    }
  }
  if (!ok) FAIL("op: the operation is not defined for this type");
}
int MPI_Reduce_local(const void *in, void *io, int n, MPI_Datatype d, MPI_Op o) {
  apply(o, (void *)in, io, n, d);
  return 0;
}

/* ------------------------------------------------------------------ start and end */
static int coll_simple(int kind);
int MPI_Init_thread(int *ac, char ***av, int want, int *got) {
  (void)ac;
  (void)av;
  sim_event();
  if (mpi_state == 1) FAIL("init: MPI is initialised twice");
  if (mpi_state == 2) FAIL("init: MPI is initialised again after its end");
  mpi_level = want;
  extern int sim_late;
  sim_late = 1;
  if (got) *got = want;
  main_thread = sim_thread_id();
  mpi_state = 1;
  return coll_simple(C_INIT);
}
int MPI_Init(int *ac, char ***av) { return MPI_Init_thread(ac, av, MPI_THREAD_SINGLE, NULL); }
int MPI_Initialized(int *f) { sim_event(); *f = mpi_state >= 1; return 0; }
int MPI_Finalized(int *f) { sim_event(); *f = mpi_state == 2; return 0; }
int MPI_Query_thread(int *l) { enter("MPI_Query_thread"); *l = mpi_level; return 0; }
int MPI_Is_thread_main(int *f) { enter("MPI_Is_thread_main"); *f = sim_thread_id() == main_thread; return 0; }
static int open_reqs;
int MPI_Finalize(void) {
  enter("MPI_Finalize");
  coll_simple(C_FINALIZE);
  mpi_state = 2;
  if (sim_P) sim_P->finalized = 1;
  return 0;
}
int MPI_Abort(MPI_Comm c, int code) {
  (void)c;
  sim_event();
  ask(Q_ABORT);
  _exit(code ? code : 1);
}
double MPI_Wtime(void) {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char *n, int *l) { *l = sprintf(n, "node%d", sim_rank); return 0; }
int MPI_Get_version(int *v, int *s) { *v = 3; *s = 1; return 0; }
int MPI_Get_library_version(char *n, int *l) { *l = sprintf(n, "simulated MPI"); return 0; }
static const void *bs_buf;
static int bs_n;
int MPI_Buffer_attach(void *b, int n) { bs_buf = b; bs_n = n; return 0; }
int MPI_Buffer_detach(void *b, int *n) { *(const void **)b = bs_buf; *n = bs_n; bs_buf = NULL; bs_n = 0; return 0; }
int MPI_Error_string(int e, char *s, int *l) { *l = sprintf(s, "error %d", e); return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }

/* ------------------------------------------------------------------ requests */
typedef struct {
  uint32_t magic, id;
  int kind; /* 1 send 2 recv 3 collective */
  void *rbuf;
  const void *sbuf;
  MPI_Datatype rt;
  int rcount;
  const int *rcounts, *displs;
  int ckind, root;
  MPI_Op op;
  comm *c;
  uint8_t *mine; /* packed contribution of this process */
  uint32_t minelen;
  int *own_counts, *own_displs;
  void (*later)(void *, done_t *);
  MPI_Comm *newcomm;
  int color_like;
} rreq;
#define RQMAGIC 0x4e9ae575
static rreq *new_rr(int kind) {
  rreq *r = calloc(1, sizeof *r);
  r->magic = RQMAGIC;
  r->kind = kind;
  r->id = P_()->rid;
  open_reqs++;
  return r;
}
static rreq *RR(MPI_Request q) {
  rreq *r = (rreq *)q;
  if (!r || r->magic != RQMAGIC) FAIL("request: not an open request");
  return r;
}
static void coll_finish(rreq *r, done_t *d);
static void no_status(MPI_Status *s) {
  if (!s) return;
  memset(s, 0, sizeof *s);
  s->MPI_SOURCE = MPI_ANY_SOURCE;
  s->MPI_TAG = MPI_ANY_TAG;
}
static void proc_null_status(MPI_Status *s) {
  if (!s) return;
  memset(s, 0, sizeof *s);
  s->MPI_SOURCE = MPI_PROC_NULL;
  s->MPI_TAG = MPI_ANY_TAG;
}
static void finish(rreq *r, done_t *d, MPI_Status *s) {
  rq *p = P_();
  no_status(s);
  if (r->kind == 2) {
    if (!d->cancelled) {
      if (r->rbuf || d->len) unpack(T_(r->rt), r->rbuf, p->in + d->off, d->len);
      if (s) {
        s->MPI_SOURCE = from_world(r->c, d->src);
        s->MPI_TAG = d->tag;
        s->_ucount = d->len;
      }
    } else if (s)
      s->_cancelled = 1;
  } else if (r->kind == 3)
    coll_finish(r, d);
  r->magic = 0;
  free(r->mine);
  free(r->own_counts);
  free(r->own_displs);
  free(r);
  open_reqs--;
}
/* returns the number completed; idx (if given) gets their positions */
static int waiting(int mode, int poll, int n, MPI_Request *q, MPI_Status *st, int *idx, int statuses_by_pos) {
  rq *p = P_();
  rreq *rr[MAXIDS];
  int pos[MAXIDS];
  uint32_t k = 0;
  if (n > MAXIDS) NOTYET("that many requests");
  for (int i = 0; i < n; i++)
    if (q[i] != MPI_REQUEST_NULL) {
      rr[k] = RR(q[i]);
      p->ids[k] = rr[k]->id;
      pos[k++] = i;
    } else if (st && statuses_by_pos)
      no_status(&st[i]);
  if (!k) return MPI_UNDEFINED;
  p->nids = k;
  p->mode = mode;
  p->poll = poll;
  ask(Q_WAIT);
  if (!p->found) return 0;
  int got = 0;
  uint32_t nd = p->ndone;
  done_t *dd = malloc(sizeof(done_t) * (nd + 1));
  memcpy(dd, p->done, sizeof(done_t) * nd);
  for (uint32_t d = 0; d < nd; d++)
    for (uint32_t i = 0; i < k; i++)
      if (rr[i] && rr[i]->id == dd[d].id) {
        finish(rr[i], &dd[d], st ? &st[statuses_by_pos ? pos[i] : got] : NULL);
        rr[i] = NULL;
        q[pos[i]] = MPI_REQUEST_NULL;
        if (idx) idx[got] = pos[i];
        got++;
        break;
      }
  free(dd);
  return got;
}
int MPI_Wait(MPI_Request *q, MPI_Status *s) {
  enter("MPI_Wait");
  if (waiting(W_ALL, 0, 1, q, s, NULL, 1) == MPI_UNDEFINED) no_status(s);
  return 0;
}
int MPI_Test(MPI_Request *q, int *f, MPI_Status *s) {
  enter("MPI_Test");
  int r = waiting(W_ALL, 1, 1, q, s, NULL, 1);
  *f = r != 0;
  if (r == MPI_UNDEFINED) no_status(s);
  return 0;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) {
  enter("MPI_Waitall");
  waiting(W_ALL, 0, n, q, s, NULL, 1);
  return 0;
}
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *s) {
  enter("MPI_Testall");
  *f = waiting(W_ALL, 1, n, q, s, NULL, 1) != 0;
  return 0;
}
int MPI_Waitany(int n, MPI_Request *q, int *i, MPI_Status *s) {
  enter("MPI_Waitany");
  if (waiting(W_ANY, 0, n, q, s, i, 0) == MPI_UNDEFINED) {
    *i = MPI_UNDEFINED;
    no_status(s);
  }
  return 0;
}
int MPI_Testany(int n, MPI_Request *q, int *i, int *f, MPI_Status *s) {
  enter("MPI_Testany");
  int r = waiting(W_ANY, 1, n, q, s, i, 0);
  *f = r != 0;
  if (r == MPI_UNDEFINED || r == 0) *i = MPI_UNDEFINED;
  if (r == MPI_UNDEFINED) no_status(s);
  return 0;
}
int MPI_Waitsome(int n, MPI_Request *q, int *k, int *i, MPI_Status *s) {
  enter("MPI_Waitsome");
  *k = waiting(W_SOME, 0, n, q, s, i, 0);
  return 0;
}
int MPI_Testsome(int n, MPI_Request *q, int *k, int *i, MPI_Status *s) {
  enter("MPI_Testsome");
  *k = waiting(W_SOME, 1, n, q, s, i, 0);
  return 0;
}
int MPI_Cancel(MPI_Request *q) {
  enter("MPI_Cancel");
  P_()->id = RR(*q)->id;
  ask(Q_CANCEL);
  return 0;
}
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->_cancelled; return 0; }
int MPI_Request_free(MPI_Request *q) {
  enter("MPI_Request_free");
  rreq *r = RR(*q);
  P_()->id = r->id;
  ask(Q_FREE);
  r->magic = 0;
  open_reqs--;
  *q = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype d, int *n) {
  ty *t = T_(d);
  if (!t->size) *n = 0;
  else if (s->_ucount % (size_t)t->size) *n = MPI_UNDEFINED;
  else *n = (int)(s->_ucount / (size_t)t->size);
  return 0;
}
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype d, int *n) {
  ty *t = T_(d);
  *n = t->size ? (int)(s->_ucount / (size_t)t->size * t->n) : 0;
  return 0;
}

/* ------------------------------------------------------------------ point to point */
static int send_(const char *name, const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, int mode,
                 MPI_Request *out) {
  enter(name);
  comm *k = Cm(c);
  rq *p = P_();
  if (tag < 0) FAIL("argument: a message is sent with tag %d", tag);
  if (dst == MPI_PROC_NULL) {
    if (out) *out = MPI_REQUEST_NULL;
    return 0;
  }
  ty *t = T_(d);
  p->dst = to_world(k, dst);
  p->tag = tag;
  p->ctx = k->ctx;
  p->mode = mode;
  p->outlen = pack(t, n, b, p->out, OUTMAX);
  p->sig = sig_of(t, n);
  p->nsig = p->outlen;
  ask(Q_SEND);
  rreq *r = new_rr(1);
  MPI_Request q = (MPI_Request)r;
  if (out)
    *out = q;
  else
    waiting(W_ALL, 0, 1, &q, NULL, NULL, 1);
  return 0;
}
#define SEND2(name, iname, mode)                                                                       \
  int MPI_##name(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) {                 \
    return send_("MPI_" #name, b, n, d, dst, tag, c, mode, NULL);                                      \
  }                                                                                                    \
  int MPI_##iname(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *q) { \
    return send_("MPI_" #iname, b, n, d, dst, tag, c, mode, q);                                        \
  }
SEND2(Send, Isend, 0)
SEND2(Ssend, Issend, 1)
SEND2(Rsend, Irsend, 0)
SEND2(Bsend, Ibsend, 2)
static MPI_Request recv_(void *b, int n, MPI_Datatype d, int src, int tag, comm *k) {
  rq *p = P_();
  ty *t = T_(d);
  if (n < 0) FAIL("argument: a count is negative");
  p->src = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : to_world(k, src);
  p->tag = tag;
  p->ctx = k->ctx;
  p->cap = (uint32_t)bytes(t, n);
  p->sig = sig_of(t, n);
  p->nsig = p->cap;
  ask(Q_RECV);
  rreq *r = new_rr(2);
  r->rbuf = b;
  r->rt = d;
  r->c = k;
  return (MPI_Request)r;
}
int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status *s) {
  enter("MPI_Recv");
  comm *k = Cm(c);
  if (src == MPI_PROC_NULL) {
    proc_null_status(s);
    return 0;
  }
  MPI_Request q = recv_(b, n, d, src, tag, k);
  waiting(W_ALL, 0, 1, &q, s, NULL, 1);
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request *q) {
  enter("MPI_Irecv");
  if (src == MPI_PROC_NULL) {
    *q = MPI_REQUEST_NULL;
    return 0;
  }
  *q = recv_(b, n, d, src, tag, Cm(c));
  return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int st, void *rb, int rn, MPI_Datatype rd, int src,
                 int rt, MPI_Comm c, MPI_Status *s) {
  enter("MPI_Sendrecv");
  MPI_Request q[2] = {MPI_REQUEST_NULL, MPI_REQUEST_NULL};
  MPI_Status ss[2];
  proc_null_status(&ss[0]);
  if (src != MPI_PROC_NULL) q[0] = recv_(rb, rn, rd, src, rt, Cm(c));
  send_("MPI_Sendrecv", sb, sn, sd, dst, st, c, 0, &q[1]);
  int none = q[0] == MPI_REQUEST_NULL;
  waiting(W_ALL, 0, 2, q, ss, NULL, 1);
  if (none) proc_null_status(&ss[0]);
  if (s) *s = ss[0];
  return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype d, int dst, int st, int src, int rt, MPI_Comm c, MPI_Status *s) {
  ty *t = T_(d);
  size_t sz = (size_t)(t->extent * n + 64);
  void *copy = malloc(sz);
  uint8_t *pk = malloc(bytes(t, n) + 1);
  uint32_t len = pack(t, n, b, pk, bytes(t, n));
  unpack(t, copy, pk, len);
  int r = MPI_Sendrecv(copy, n, d, dst, st, b, n, d, src, rt, c, s);
  free(copy);
  free(pk);
  return r;
}
typedef struct { uint32_t magic, id; comm *c; } mmsg;
#define MSMAGIC 0x35a6e001
static int probe_(const char *name, int src, int tag, MPI_Comm c, int poll, int take, MPI_Message *m, MPI_Status *s) {
  enter(name);
  comm *k = Cm(c);
  rq *p = P_();
  if (src == MPI_PROC_NULL) {
    proc_null_status(s);
    if (m) *m = MPI_MESSAGE_NO_PROC;
    return 1;
  }
  p->src = src == MPI_ANY_SOURCE ? MPI_ANY_SOURCE : to_world(k, src);
  p->tag = tag;
  p->ctx = k->ctx;
  p->poll = poll;
  p->probe = (uint32_t)take;
  ask(Q_PROBE);
  if (!p->found) return 0;
  no_status(s);
  if (s) {
    s->MPI_SOURCE = from_world(k, p->psrc);
    s->MPI_TAG = p->ptag;
    s->_ucount = p->plen;
  }
  if (m) {
    mmsg *x = calloc(1, sizeof *x);
    x->magic = MSMAGIC;
    x->id = p->pmsg;
    x->c = k;
    *m = (MPI_Message)x;
  }
  return 1;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *s) { probe_("MPI_Probe", src, tag, c, 0, 0, NULL, s); return 0; }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *s) { *f = probe_("MPI_Iprobe", src, tag, c, 1, 0, NULL, s); return 0; }
int MPI_Mprobe(int src, int tag, MPI_Comm c, MPI_Message *m, MPI_Status *s) { probe_("MPI_Mprobe", src, tag, c, 0, 1, m, s); return 0; }
int MPI_Improbe(int src, int tag, MPI_Comm c, int *f, MPI_Message *m, MPI_Status *s) { *f = probe_("MPI_Improbe", src, tag, c, 1, 1, m, s); return 0; }
static MPI_Request mrecv_(void *b, int n, MPI_Datatype d, MPI_Message *m) {
  mmsg *x = (mmsg *)*m;
  if (!x || x->magic != MSMAGIC) FAIL("message: not a message");
  rq *p = P_();
  ty *t = T_(d);
  p->id = x->id;
  p->cap = (uint32_t)bytes(t, n);
  p->sig = sig_of(t, n);
  p->nsig = p->cap;
  ask(Q_MRECV);
  rreq *r = new_rr(2);
  r->rbuf = b;
  r->rt = d;
  r->c = x->c;
  x->magic = 0;
  free(x);
  *m = MPI_MESSAGE_NULL;
  return (MPI_Request)r;
}
int MPI_Mrecv(void *b, int n, MPI_Datatype d, MPI_Message *m, MPI_Status *s) {
  enter("MPI_Mrecv");
  if (*m == MPI_MESSAGE_NO_PROC) {
    proc_null_status(s);
    *m = MPI_MESSAGE_NULL;
    return 0;
  }
  MPI_Request q = mrecv_(b, n, d, m);
  waiting(W_ALL, 0, 1, &q, s, NULL, 1);
  return 0;
}
int MPI_Imrecv(void *b, int n, MPI_Datatype d, MPI_Message *m, MPI_Request *q) {
  enter("MPI_Imrecv");
  *q = mrecv_(b, n, d, m);
  return 0;
}

/* ------------------------------------------------------------------ collectives */
/* the request of a collective; the caller has packed the contribution into out */
static rreq *coll_start(int kind, comm *k, int root, MPI_Op op, uint32_t len, uint64_t sig, uint64_t nsig) {
  rq *p = P_();
  p->kind = kind;
  p->ctx = k->ctx;
  p->root = root;
  p->me = k->me;
  p->csize = k->size;
  memcpy(p->members, k->m, sizeof p->members);
  p->rop = op ? 1u + (uint32_t)op_kind(op) : 0;
  p->outlen = len;
  p->sig = sig;
  p->nsig = nsig;
  uint8_t *mine = malloc(len + 1u);
  memcpy(mine, p->out, len);
  ask(Q_COLL);
  rreq *r = new_rr(3);
  r->ckind = kind;
  r->root = root;
  r->op = op;
  r->c = k;
  r->mine = mine;
  r->minelen = len;
  return r;
}
static int coll_simple(int kind) {
  MPI_Request q = (MPI_Request)coll_start(kind, Cm(MPI_COMM_WORLD), 0, NULL, 0, 0, 0);
  waiting(W_ALL, 0, 1, &q, NULL, NULL, 1);
  return 0;
}
static void blk(const uint8_t *b, int size, const uint8_t **at, uint32_t *len) {
  for (int i = 0; i < size; i++) {
    memcpy(&len[i], b, 4);
    at[i] = b + 4;
    b += 4 + len[i];
  }
}
/* folds the contributions lo..hi-1 of n elements into out (native layout) */
static void fold(MPI_Op op, MPI_Datatype d, int n, const uint8_t **at, const uint32_t *len, const int *ord, int lo,
                 int hi, int tree, uint8_t *out, size_t room) {
  ty *t = T_(d);
  if (hi - lo == 1) {
    memset(out, 0, room);
    unpack(t, out, at[ord[lo]], len[ord[lo]]);
    return;
  }
  int mid = tree ? (lo + hi) / 2 : hi - 1;
  uint8_t *l = malloc(room);
  fold(op, d, n, at, len, ord, lo, mid, tree, l, room);
  fold(op, d, n, at, len, ord, mid, hi, tree, out, room);
  apply(op, l, out, n, d); /* left op right -> right */
  free(l);
}
static void reduce_all(rreq *r, done_t *d, int upto, int n, void *out) {
  rq *p = P_();
  const uint8_t *at[SIM_MAXRANKS];
  uint32_t len[SIM_MAXRANKS];
  int size = r->c->size, ord[SIM_MAXRANKS], cm = 1;
  /* applying the operation may not overwrite the answer: copy it */
  uint8_t *copy = malloc(d->len + 1u);
  memcpy(copy, p->in + d->off, d->len);
  blk(copy, size, at, len);
  MPI_Op_commutative(r->op, &cm);
  for (int i = 0; i < upto; i++) {
    int v = i;
    if (cm && d->extra == 1) v = upto - 1 - i;
    if (cm && d->extra == 2) v = (i + 1 + upto / 2) % upto;
    ord[i] = v;
  }
  ty *t = T_(r->rt);
  size_t room = (size_t)(t->extent * (n > 0 ? n : 1) + 64);
  uint8_t *res = malloc(room), *pk = malloc(bytes(t, n) + 1);
  if (n > 0) {
    fold(r->op, r->rt, n, at, len, ord, 0, upto, d->extra == 3, res, room);
    uint32_t k = pack(t, n, res, pk, bytes(t, n));
    unpack(t, out, pk, k);
  }
  free(res);
  free(pk);
  free(copy);
}
static void coll_finish(rreq *r, done_t *d) {
  rq *p = P_();
  comm *c = r->c;
  const uint8_t *at[SIM_MAXRANKS];
  uint32_t len[SIM_MAXRANKS];
  switch (r->ckind) {
  case C_BCAST:
    if (c->me != r->root) {
      blk(p->in + d->off, c->size, at, len);
      unpack(T_(r->rt), r->rbuf, at[r->root], len[r->root]);
    }
    break;
  case C_REDUCE:
    if (c->me == r->root) reduce_all(r, d, c->size, r->rcount, r->rbuf);
    break;
  case C_ALLREDUCE: reduce_all(r, d, c->size, r->rcount, r->rbuf); break;
  case C_SCAN: reduce_all(r, d, c->me + 1, r->rcount, r->rbuf); break;
  case C_EXSCAN:
    if (c->me > 0) reduce_all(r, d, c->me, r->rcount, r->rbuf);
    break;
  case C_RSCATTER: {
    ty *t = T_(r->rt);
    int n = r->rcount * c->size;
    uint8_t *all = malloc((size_t)(t->extent * n + 64)), *pk = malloc(bytes(t, r->rcount) + 1);
    reduce_all(r, d, c->size, n, all);
    uint32_t k = pack(t, r->rcount, all + t->extent * r->rcount * c->me, pk, bytes(t, r->rcount));
    unpack(t, r->rbuf, pk, k);
    free(all);
    free(pk);
    break;
  }
  case C_GATHER:
    if (c->me != r->root) break;
    /* fall through */
  case C_ALLGATHER:
  case C_ALLTOALL: {
    blk(p->in + d->off, c->size, at, len);
    ty *t = T_(r->rt);
    for (int i = 0; i < c->size; i++) {
      int64_t pos = r->displs ? r->displs[i] : (int64_t)i * r->rcount;
      unpack(t, (uint8_t *)r->rbuf + pos * t->extent, at[i], len[i]);
    }
    break;
  }
  case C_SCATTER:
    if (r->rbuf == MPI_IN_PLACE) break;
    blk(p->in + d->off, c->size, at, len);
    unpack(T_(r->rt), r->rbuf, at[r->root], len[r->root]);
    break;
  case C_COMM: {
    int32_t mine[2], v[2];
    memcpy(mine, r->mine, 8);
    blk(p->in + d->off, c->size, at, len);
    if (mine[0] == MPI_UNDEFINED) {
      *r->newcomm = MPI_COMM_NULL;
      break;
    }
    comm *k = calloc(1, sizeof *k);
    k->magic = COMAGIC;
    int32_t key[SIM_MAXRANKS];
    uint32_t colours = 0;
    int seen[SIM_MAXRANKS], ns = 0;
    for (int i = 0; i < c->size; i++) {
      memcpy(v, at[i], 8);
      int s = 0;
      for (int j = 0; j < ns; j++) s |= seen[j] == v[0];
      if (!s) seen[ns++] = v[0];
      if (v[0] != mine[0]) continue;
      int j = k->size++;
      while (j > 0 && key[j - 1] > v[1]) {
        key[j] = key[j - 1];
        k->m[j] = k->m[j - 1];
        j--;
      }
      key[j] = v[1];
      k->m[j] = c->m[i];
    }
    for (int j = 0; j < ns; j++)
      if (seen[j] == mine[0]) colours = (uint32_t)j;
    for (int j = 0; j < k->size; j++)
      if (k->m[j] == sim_rank) k->me = j;
    k->ctx = 2u + ((uint32_t)d->inst * 16 + colours) % 250;
    *r->newcomm = (MPI_Comm)k;
    break;
  }
  default: break;
  }
}
static int done_or(rreq *r, MPI_Request *out) {
  MPI_Request q = (MPI_Request)r;
  if (out)
    *out = q;
  else
    waiting(W_ALL, 0, 1, &q, NULL, NULL, 1);
  return 0;
}
static void root_ok(comm *k, int root) {
  if (root < 0 || root >= k->size) FAIL("rank: root %d of a communicator of %d", root, k->size);
}
static int barrier_(MPI_Comm c, MPI_Request *q) {
  enter("MPI_Barrier");
  return done_or(coll_start(C_BARRIER, Cm(c), 0, NULL, 0, 0, 0), q);
}
int MPI_Barrier(MPI_Comm c) { return barrier_(c, NULL); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { return barrier_(c, q); }
static int bcast_(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request *q) {
  enter("MPI_Bcast");
  comm *k = Cm(c);
  root_ok(k, root);
  ty *t = T_(d);
  uint32_t len = k->me == root ? pack(t, n, b, P_()->out, OUTMAX) : 0;
  rreq *r = coll_start(C_BCAST, k, root, NULL, len, sig_of(t, n), bytes(t, n));
  r->rbuf = b;
  r->rt = d;
  r->rcount = n;
  return done_or(r, q);
}
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) { return bcast_(b, n, d, root, c, NULL); }
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request *q) { return bcast_(b, n, d, root, c, q); }
static int reduce_(int kind, const char *name, const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c, MPI_Request *q) {
  enter(name);
  comm *k = Cm(c);
  root_ok(k, root);
  ty *t = T_(d);
  int cnt = kind == C_RSCATTER ? n * k->size : n;
  uint32_t len = pack(t, cnt, sb == MPI_IN_PLACE ? rb : sb, P_()->out, OUTMAX);
  rreq *r = coll_start(kind, k, root, o, len, sig_of(t, cnt), bytes(t, cnt));
  r->rbuf = rb;
  r->rt = d;
  r->rcount = n;
  return done_or(r, q);
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c) { return reduce_(C_REDUCE, "MPI_Reduce", s, r, n, d, o, root, c, NULL); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c, MPI_Request *q) { return reduce_(C_REDUCE, "MPI_Ireduce", s, r, n, d, o, root, c, q); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return reduce_(C_ALLREDUCE, "MPI_Allreduce", s, r, n, d, o, 0, c, NULL); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c, MPI_Request *q) { return reduce_(C_ALLREDUCE, "MPI_Iallreduce", s, r, n, d, o, 0, c, q); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return reduce_(C_SCAN, "MPI_Scan", s, r, n, d, o, 0, c, NULL); }
int MPI_Iscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c, MPI_Request *q) { return reduce_(C_SCAN, "MPI_Iscan", s, r, n, d, o, 0, c, q); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return reduce_(C_EXSCAN, "MPI_Exscan", s, r, n, d, o, 0, c, NULL); }
int MPI_Iexscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c, MPI_Request *q) { return reduce_(C_EXSCAN, "MPI_Iexscan", s, r, n, d, o, 0, c, q); }
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return reduce_(C_RSCATTER, "MPI_Reduce_scatter_block", s, r, n, d, o, 0, c, NULL); }
int MPI_Ireduce_scatter_block(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c, MPI_Request *q) { return reduce_(C_RSCATTER, "MPI_Ireduce_scatter_block", s, r, n, d, o, 0, c, q); }
/* gather and allgather; rcounts NULL: rn each */
static int gather_(int kind, const char *name, const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, const int *rc,
                   const int *disp, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request *q) {
  enter(name);
  comm *k = Cm(c);
  rq *p = P_();
  root_ok(k, root);
  int here = kind == C_ALLGATHER || k->me == root;
  if (sb == MPI_IN_PLACE) {
    int mine = rc ? rc[k->me] : rn;
    int64_t pos = disp ? disp[k->me] : (int64_t)k->me * rn;
    sb = (uint8_t *)rb + pos * T_(rd)->extent;
    sn = mine;
    sd = rd;
  }
  ty *t = T_(sd);
  uint32_t len = pack(t, sn, sb, p->out, OUTMAX);
  if (here)
    for (int i = 0; i < k->size; i++) {
      p->chunk[i] = (uint32_t)bytes(T_(rd), rc ? rc[i] : rn);
      p->chunksig[i] = sig_of(T_(rd), rc ? rc[i] : rn);
    }
  if (kind == C_ALLGATHER && !rc && p->chunk[k->me] != len) FAIL("collective: %s sends %u bytes and receives %u from each", name, len, p->chunk[k->me]);
  /* with different counts the contributions may differ in size: sizes are not compared */
  rreq *r = coll_start(kind, k, root, NULL, len, rc && kind == C_ALLGATHER ? 0 : sig_of(t, sn), rc && kind == C_ALLGATHER ? 0 : bytes(t, sn));
  r->rbuf = rb;
  r->rcount = rn;
  r->rt = rd;
  if (disp && here) {
    r->own_displs = malloc(sizeof(int) * (size_t)k->size);
    memcpy(r->own_displs, disp, sizeof(int) * (size_t)k->size);
    r->displs = r->own_displs;
  }
  return done_or(r, q);
}
int MPI_Gather(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return gather_(C_GATHER, "MPI_Gather", sb, sn, sd, rb, rn, NULL, NULL, rd, root, c, NULL); }
int MPI_Igather(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request *q) { return gather_(C_GATHER, "MPI_Igather", sb, sn, sd, rb, rn, NULL, NULL, rd, root, c, q); }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype sd, void *rb, const int *rc, const int *di, MPI_Datatype rd, int root, MPI_Comm c) { return gather_(C_GATHER, "MPI_Gatherv", sb, sn, sd, rb, 0, rc, di, rd, root, c, NULL); }
int MPI_Igatherv(const void *sb, int sn, MPI_Datatype sd, void *rb, const int *rc, const int *di, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request *q) { return gather_(C_GATHER, "MPI_Igatherv", sb, sn, sd, rb, 0, rc, di, rd, root, c, q); }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm c) { return gather_(C_ALLGATHER, "MPI_Allgather", sb, sn, sd, rb, rn, NULL, NULL, rd, 0, c, NULL); }
int MPI_Iallgather(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm c, MPI_Request *q) { return gather_(C_ALLGATHER, "MPI_Iallgather", sb, sn, sd, rb, rn, NULL, NULL, rd, 0, c, q); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype sd, void *rb, const int *rc, const int *di, MPI_Datatype rd, MPI_Comm c) { return gather_(C_ALLGATHER, "MPI_Allgatherv", sb, sn, sd, rb, 0, rc, di, rd, 0, c, NULL); }
int MPI_Iallgatherv(const void *sb, int sn, MPI_Datatype sd, void *rb, const int *rc, const int *di, MPI_Datatype rd, MPI_Comm c, MPI_Request *q) { return gather_(C_ALLGATHER, "MPI_Iallgatherv", sb, sn, sd, rb, 0, rc, di, rd, 0, c, q); }
static int scatter_(const char *name, const void *sb, int sn, const int *sc, const int *disp, MPI_Datatype sd, void *rb,
                    int rn, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request *q) {
  enter(name);
  comm *k = Cm(c);
  rq *p = P_();
  root_ok(k, root);
  uint32_t len = 0;
  if (k->me == root) {
    ty *t = T_(sd);
    for (int i = 0; i < k->size; i++) {
      int n = sc ? sc[i] : sn;
      int64_t pos = disp ? disp[i] : (int64_t)i * sn;
      p->chunk[i] = pack(t, n, (const uint8_t *)sb + pos * t->extent, p->out + len, OUTMAX - len);
      p->chunksig[i] = sig_of(t, n);
      len += p->chunk[i];
    }
    if (rb != MPI_IN_PLACE && bytes(T_(rd), rn) != p->chunk[root])
      FAIL("collective: the root of %s sends itself %u bytes and receives %llu", name, p->chunk[root], (unsigned long long)bytes(T_(rd), rn));
  }
  ty *t = rb == MPI_IN_PLACE ? NULL : T_(rd);
  rreq *r = coll_start(C_SCATTER, k, root, NULL, len, t ? sig_of(t, rn) : 0, t ? bytes(t, rn) : 0);
  r->rbuf = rb;
  r->rcount = rn;
  r->rt = rd;
  return done_or(r, q);
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return scatter_("MPI_Scatter", sb, sn, NULL, NULL, sd, rb, rn, rd, root, c, NULL); }
int MPI_Iscatter(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request *q) { return scatter_("MPI_Iscatter", sb, sn, NULL, NULL, sd, rb, rn, rd, root, c, q); }
int MPI_Scatterv(const void *sb, const int *sc, const int *di, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c) { return scatter_("MPI_Scatterv", sb, 0, sc, di, sd, rb, rn, rd, root, c, NULL); }
int MPI_Iscatterv(const void *sb, const int *sc, const int *di, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request *q) { return scatter_("MPI_Iscatterv", sb, 0, sc, di, sd, rb, rn, rd, root, c, q); }
static int alltoall_(const char *name, const void *sb, int sn, const int *sc, const int *sdi, MPI_Datatype sd, void *rb,
                     int rn, const int *rc, const int *rdi, MPI_Datatype rd, MPI_Comm c, MPI_Request *q) {
  enter(name);
  comm *k = Cm(c);
  rq *p = P_();
  (void)rc;
  if (sb == MPI_IN_PLACE) NOTYET("alltoall in place");
  ty *t = T_(sd);
  uint32_t len = 0;
  for (int i = 0; i < k->size; i++) {
    int n = sc ? sc[i] : sn;
    int64_t pos = sdi ? sdi[i] : (int64_t)i * sn;
    p->chunk[i] = pack(t, n, (const uint8_t *)sb + pos * t->extent, p->out + len, OUTMAX - len);
    len += p->chunk[i];
  }
  rreq *r = coll_start(C_ALLTOALL, k, 0, NULL, len, 0, 0);
  r->rbuf = rb;
  r->rcount = rn;
  r->rt = rd;
  if (rdi) {
    r->own_displs = malloc(sizeof(int) * (size_t)k->size);
    memcpy(r->own_displs, rdi, sizeof(int) * (size_t)k->size);
    r->displs = r->own_displs;
  }
  return done_or(r, q);
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm c) { return alltoall_("MPI_Alltoall", sb, sn, NULL, NULL, sd, rb, rn, NULL, NULL, rd, c, NULL); }
int MPI_Ialltoall(const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, MPI_Datatype rd, MPI_Comm c, MPI_Request *q) { return alltoall_("MPI_Ialltoall", sb, sn, NULL, NULL, sd, rb, rn, NULL, NULL, rd, c, q); }
int MPI_Alltoallv(const void *sb, const int *sc, const int *sdi, MPI_Datatype sd, void *rb, const int *rc, const int *rdi, MPI_Datatype rd, MPI_Comm c) { return alltoall_("MPI_Alltoallv", sb, 0, sc, sdi, sd, rb, 0, rc, rdi, rd, c, NULL); }
int MPI_Ialltoallv(const void *sb, const int *sc, const int *sdi, MPI_Datatype sd, void *rb, const int *rc, const int *rdi, MPI_Datatype rd, MPI_Comm c, MPI_Request *q) { return alltoall_("MPI_Ialltoallv", sb, 0, sc, sdi, sd, rb, 0, rc, rdi, rd, c, q); }
static int comm_make(const char *name, MPI_Comm c, int color, int key, MPI_Comm *out) {
  enter(name);
  int32_t v[2] = {color, key};
  memcpy(P_()->out, v, 8);
  rreq *r = coll_start(C_COMM, Cm(c), 0, NULL, 8, 0, 0);
  r->newcomm = out;
  return done_or(r, NULL);
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) { return comm_make("MPI_Comm_split", c, color, key, out); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { return comm_make("MPI_Comm_dup", c, 0, 0, out); }
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info i, MPI_Comm *out) { (void)i; return comm_make("MPI_Comm_split_type", c, t == MPI_UNDEFINED ? t : 0, key, out); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out) {
  int r;
  MPI_Group_rank(g, &r);
  return comm_make("MPI_Comm_create", c, r == MPI_UNDEFINED ? MPI_UNDEFINED : 0, r == MPI_UNDEFINED ? 0 : r, out);
}
int MPI_Pack_size(int n, MPI_Datatype d, MPI_Comm c, int *s) { (void)c; *s = (int)bytes(T_(d), n); return 0; }
int MPI_Pack(const void *b, int n, MPI_Datatype d, void *o, int osz, int *pos, MPI_Comm c) {
  (void)c;
  *pos += (int)pack(T_(d), n, b, (uint8_t *)o + *pos, (uint64_t)(osz - *pos));
  return 0;
}
int MPI_Unpack(const void *b, int sz, int *pos, void *o, int n, MPI_Datatype d, MPI_Comm c) {
  (void)c;
  (void)sz;
  unpack(T_(d), o, (const uint8_t *)b + *pos, bytes(T_(d), n));
  *pos += (int)bytes(T_(d), n);
  return 0;
}
