// Deterministic simulation runtime for the ass-rs harness.
//
// Everything the code under test could use to observe or cause nondeterminism is
// routed through this file: atomics (via the compiler's __tsan_* instrumentation
// callbacks, used purely as preemption points), futexes (every lock, condvar and
// park in std and parking_lot), thread creation/join/exit, clocks, randomness,
// file I/O under /simfs, sleeping and yielding, and heap addresses.
//
// Threads are real OS threads, but exactly one of them holds the run token; who
// gets it next is decided by a seeded PRNG or by a recorded trace (replay).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "rt.h"

// ---------------------------------------------------------------- raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline long fix(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- PRNG
static uint64_t mix(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

// ---------------------------------------------------------------- state
enum { T_UNUSED, T_READY, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
typedef struct {
  int state;
  int id;
  volatile int go;         // raw futex: 1 = holds the token
  const void *waddr;       // futex address waited on
  uint64_t deadline;       // 0 = none (simulated monotonic ns)
  int wake_reason;         // 0 woken, 1 timeout, 2 spurious
  int join_on;
  uint64_t prio;           // PCT priority
  uint64_t stalled_until;  // step until which this thread is not scheduled ("slow node")
  pthread_t pt;
  void *(*start)(void *);
  void *arg;
} T;

#define MAXT 64
static T threads[MAXT];
static int nthreads;
static volatile int sim_on;
static __thread T *self __attribute__((tls_model("initial-exec")));
static __thread int in_rt __attribute__((tls_model("initial-exec")));

static rt_config cfg;
rt_stats rt_st;
static uint64_t s_sched, s_fault, s_rand;
static uint64_t mono_ns, real_ns;
static uint64_t steps;       // preemption points so far
static uint64_t fault_q;     // fault queries so far

rt_rec rt_sched_rec[RT_MAXREC]; uint64_t rt_nsched;
rt_rec rt_fault_rec[RT_MAXREC]; uint64_t rt_nfault;
static rt_rec rp_sched[RT_MAXREC]; static uint64_t rp_nsched, rp_isched;
static rt_rec rp_fault[RT_MAXREC]; static uint64_t rp_nfault, rp_ifault;

extern void rt_on_stuck(int kind); // provided by the Rust side; never returns

#define ENTER() (in_rt++)
#define LEAVE() (in_rt--)
#define ACTIVE() (self && !in_rt && sim_on)

uint64_t rt_hash_state;
static inline void hmix(uint64_t v) { rt_hash_state = (rt_hash_state ^ v) * 0x100000001b3ULL; rt_hash_state ^= rt_hash_state >> 29; }

// ---------------------------------------------------------------- token passing
static void give(T *t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void take(T *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    raw6(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static int n_ready(void) { int n = 0; for (int i = 0; i < nthreads; i++) n += threads[i].state == T_READY; return n; }

static void expire(void) {
  for (int i = 0; i < nthreads; i++) {
    T *t = &threads[i];
    if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline && t->deadline <= mono_ns) {
      t->wake_reason = t->state == T_FUTEX; t->state = T_READY; t->deadline = 0;
    }
  }
}

static void rec_sched(uint64_t at, int tid) {
  if (rt_nsched < RT_MAXREC) { rt_sched_rec[rt_nsched].at = at; rt_sched_rec[rt_nsched].kind = 0; rt_sched_rec[rt_nsched].val = (uint64_t)tid; rt_nsched++; }
  else rt_st.rec_overflow = 1;
}

// default policy: keep running the current thread; if it cannot run, lowest ready id.
static T *default_next(T *cur) {
  if (cur && cur->state == T_READY) return cur;
  for (int i = 0; i < nthreads; i++) if (threads[i].state == T_READY) return &threads[i];
  return 0;
}

// Choose who runs next. `must`: the current thread cannot or should not continue.
static T *choose(T *cur, int must, int kind) {
  uint64_t at = steps;
  int nr = n_ready();
  if (nr == 0) return 0;
  T *def = default_next(must == 2 ? 0 : cur);
  if (must == 2 && nr > 1) { // yield: default is next ready thread round-robin
    def = 0;
    for (int k = 1; k <= nthreads; k++) { T *t = &threads[(cur->id + k) % nthreads]; if (t->state == T_READY && t != cur) { def = t; break; } }
    if (!def) def = cur;
  }
  if (cfg.replay) {
    T *r = def;
    while (rp_isched < rp_nsched && rp_sched[rp_isched].at < at) rp_isched++;
    if (rp_isched < rp_nsched && rp_sched[rp_isched].at == at) {
      uint64_t v = rp_sched[rp_isched].val; rp_isched++;
      if (v < (uint64_t)nthreads && threads[v].state == T_READY) r = &threads[v];
    }
    if (r != def) rec_sched(at, r->id);
    return r;
  }
  if (nr == 1) return def->state == T_READY ? def : default_next(0);
  T *pick = def;
  if (cfg.strategy == RT_PCT) {
    if (!must) {
      for (int i = 0; i < cfg.pct_d; i++) if (cfg.pct_at[i] == at) cur->prio = (uint64_t)(i + 1);
    } else if (must == 2) cur->prio = mix(&s_sched) % 1000; // yielding thread drops
    T *b = 0;
    for (int i = 0; i < nthreads; i++) if (threads[i].state == T_READY && (!b || threads[i].prio > b->prio)) b = &threads[i];
    pick = b;
  } else if (cfg.strategy == RT_RANDOM) {
    int sw = must;
    if (!sw) {
      uint32_t p = cfg.p_switch[kind]; // per 65536
      sw = p && (mix(&s_sched) & 0xffff) < p;
    }
    if (sw) {
      int c[MAXT], n = 0;
      for (int i = 0; i < nthreads; i++) if (threads[i].state == T_READY && threads[i].stalled_until <= at) c[n++] = i;
      if (n == 0) for (int i = 0; i < nthreads; i++) if (threads[i].state == T_READY) c[n++] = i;
      pick = &threads[c[mix(&s_sched) % (uint64_t)n]];
      if (cfg.p_stall && (mix(&s_sched) & 0xffff) < cfg.p_stall && pick != cur && cur->state == T_READY) {
        cur->stalled_until = at + (mix(&s_sched) & 0x3ff); rt_st.fired[RT_F_STALL]++;
      }
    }
  } // RT_SERIAL: default policy
  if (pick != def) rec_sched(at, pick->id);
  return pick;
}

static void switch_to(T *t) {
  T *me = self;
  if (t == me) return;
  rt_st.switches++;
  hmix(steps * 64 + (uint64_t)t->id);
  give(t);
  take(me);
}

static void advance_idle(void) {
  // nothing runnable: jump to the earliest deadline
  uint64_t best = 0;
  for (int i = 0; i < nthreads; i++) {
    T *t = &threads[i];
    if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline && (!best || t->deadline < best)) best = t->deadline;
  }
  if (!best) return;
  if (best > mono_ns) { real_ns += best - mono_ns; mono_ns = best; }
  expire();
}

static void block_and_switch(void) {
  if (n_ready() == 0) advance_idle();
  if (n_ready() == 0) rt_on_stuck(RT_DEADLOCK);
  T *t = choose(self, 1, RT_P_BLOCK);
  switch_to(t);
}

static void tick(int kind) {
  steps++;
  rt_st.points[kind]++;
  mono_ns += cfg.tick_ns; real_ns += cfg.tick_ns;
  if (steps > cfg.max_steps) rt_on_stuck(RT_STEPS);
}

void rt_point(int kind) {
  if (!ACTIVE()) return;
  int e = errno;
  ENTER();
  tick(kind);
  if (nthreads > 1) {
    expire();
    T *t = choose(self, 0, kind);
    if (t && t != self) { rt_st.preempt++; switch_to(t); }
  }
  LEAVE();
  errno = e;
}

void rt_yield(void) {
  if (!ACTIVE()) return;
  ENTER();
  tick(RT_P_YIELD);
  expire();
  T *t = choose(self, 2, RT_P_YIELD);
  if (t) switch_to(t);
  LEAVE();
}

// ---------------------------------------------------------------- faults
// Returns 0 (no fault) or 1..n (which variant). Recorded and replayable.
static int calm; // no more faults from now on
void rt_calm(int c) { calm = c; }
uint64_t rt_fault(int kind, uint64_t n) {
  if (!sim_on || !self || calm) return 0;
  uint64_t q = fault_q++;
  uint64_t v = 0;
  if (cfg.replay) {
    while (rp_ifault < rp_nfault && rp_fault[rp_ifault].at < q) rp_ifault++;
    if (rp_ifault < rp_nfault && rp_fault[rp_ifault].at == q && (int)rp_fault[rp_ifault].kind == kind) { v = rp_fault[rp_ifault].val; if (v > n) v = n; rp_ifault++; }
  } else if (cfg.p_fault[kind] && (mix(&s_fault) & 0xffff) < cfg.p_fault[kind]) {
    v = 1 + mix(&s_fault) % n;
  }
  if (v) {
    rt_st.fired[kind]++;
    hmix(0xF000 + (uint64_t)kind * 131 + v);
    if (rt_nfault < RT_MAXREC) { rt_fault_rec[rt_nfault].at = q; rt_fault_rec[rt_nfault].kind = (uint32_t)kind; rt_fault_rec[rt_nfault].val = v; rt_nfault++; }
    else rt_st.rec_overflow = 1;
  }
  return v;
}

// ---------------------------------------------------------------- run control
void rt_begin(const rt_config *c, const rt_rec *sched, uint64_t ns, const rt_rec *flt, uint64_t nf) {
  cfg = *c;
  memset(threads, 0, sizeof threads);
  memset(&rt_st, 0, sizeof rt_st);
  nthreads = 1; calm = 0;
  s_sched = cfg.seed ^ 0x5ced; s_fault = cfg.seed ^ 0xfa017; s_rand = cfg.seed ^ 0x7a4d;
  mono_ns = cfg.mono0; real_ns = cfg.real0; steps = fault_q = 0;
  rt_nsched = rt_nfault = 0; rp_isched = rp_ifault = 0;
  rp_nsched = ns < RT_MAXREC ? ns : RT_MAXREC; rp_nfault = nf < RT_MAXREC ? nf : RT_MAXREC;
  if (rp_nsched) memcpy(rp_sched, sched, rp_nsched * sizeof(rt_rec));
  if (rp_nfault) memcpy(rp_fault, flt, rp_nfault * sizeof(rt_rec));
  rt_hash_state = 0xcbf29ce484222325ULL;
  threads[0].state = T_READY; threads[0].id = 0; threads[0].prio = 1000000 + mix(&s_sched) % 1000000;
  threads[0].pt = pthread_self();
  self = &threads[0];
  sim_on = 1;
}
void rt_end(void) { sim_on = 0; self = 0; rt_st.steps = steps; rt_st.sim_ns = mono_ns - cfg.mono0; rt_st.fault_queries = fault_q; rt_st.nthreads = (uint64_t)nthreads; }
void rt_snapshot(void) { rt_st.steps = steps; rt_st.sim_ns = mono_ns - cfg.mono0; rt_st.fault_queries = fault_q; rt_st.nthreads = (uint64_t)nthreads; }
void rt_enter(void) { in_rt++; }
void rt_leave(void) { in_rt--; }
int rt_self(void) { return self ? self->id : -1; }
uint64_t rt_steps(void) { return steps; }
uint64_t rt_mono(void) { return mono_ns; }
void rt_advance(uint64_t ns) { mono_ns += ns; real_ns += ns; }
void rt_set_real(uint64_t ns) { real_ns = ns; }
uint64_t rt_real(void) { return real_ns; }
int rt_thread_state(int i, uint64_t *addr) { if (i >= nthreads) return -1; *addr = (uint64_t)threads[i].waddr; return threads[i].state; }
uint64_t rt_rand(void) { return mix(&s_rand); }

// ---------------------------------------------------------------- threads
static void thread_exit_hook(void *p);
// std installs a SIGSEGV handler (and per-thread alternate stacks, which need guard pages)
// only when the action is still SIG_DFL at start-up: claim it first. Stack overflow then
// still kills the run with SIGSEGV, which the parent reports.
static void thread_exit_hook(void *p);
static pthread_key_t exit_key;
static __thread int exit_round;
static void on_segv(int s) { signal(s, SIG_DFL); }
__attribute__((constructor)) static void claim_segv(void) { signal(SIGSEGV, on_segv); signal(SIGBUS, on_segv); pthread_key_create(&exit_key, thread_exit_hook); }
static char *stack_base;
#define STK (8UL << 20)
typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*pj_t)(pthread_t, void **);
static void thread_exit_hook(void *p) {
  T *t = p;
  // run after every other thread-exit destructor (glibc makes 4 rounds): the thread must
  // hold the token while its own thread-locals and handles are dropped
  if (++exit_round < 4) { pthread_setspecific(exit_key, p); return; }
  ENTER();
  t->state = T_DONE;
  for (int i = 0; i < nthreads; i++) if (threads[i].state == T_JOIN && threads[i].join_on == t->id) threads[i].state = T_READY;
  if (sim_on) {
    tick(RT_P_BLOCK);
    if (n_ready() == 0) advance_idle();
    if (n_ready() == 0) rt_on_stuck(RT_DEADLOCK);
    T *n = choose(t, 1, RT_P_BLOCK);
    rt_st.switches++;
    hmix(steps * 64 + (uint64_t)n->id);
    give(n);
  }
  self = 0;
  LEAVE();
}
static void *tramp(void *p) {
  T *t = p;
  in_rt = 1;
  take(t);
  self = t;
  pthread_setspecific(exit_key, t);
  in_rt = 0;
  return t->start(t->arg);
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  static pc_t real;
  if (!real) real = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
  if (!ACTIVE()) return real(out, attr, fn, arg);
  if (nthreads >= MAXT) return EAGAIN;
  ENTER();
  if (!stack_base) stack_base = mmap((void *)0x200000000000UL, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  T *t = &threads[nthreads];
  memset(t, 0, sizeof *t);
  t->id = nthreads++;
  t->start = fn; t->arg = arg; t->state = T_READY;
  t->prio = 1000000 + mix(&s_sched) % 1000000;
  pthread_attr_t a;
  pthread_attr_init(&a);
  if (stack_base != MAP_FAILED) pthread_attr_setstack(&a, stack_base + STK * (unsigned long)t->id, STK);
  int r = real(out, &a, tramp, t);
  pthread_attr_destroy(&a);
  if (r) { nthreads--; LEAVE(); return r; }
  t->pt = *out;
  LEAVE();
  rt_point(RT_P_SPAWN);
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  static pj_t real;
  if (!real) real = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
  if (ACTIVE()) {
    ENTER();
    tick(RT_P_BLOCK);
    for (int i = 0; i < nthreads; i++)
      if (threads[i].pt == p && i != self->id && threads[i].state != T_DONE) {
        self->state = T_JOIN; self->join_on = i;
        block_and_switch();
        break;
      }
    LEAVE();
  }
  return real(p, ret);
}

// ---------------------------------------------------------------- futex, yield, sleep, randomness
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t bits) {
  int cmd = op & FUTEX_CMD_MASK;
  (void)bits;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    ENTER();
    tick(RT_P_FUTEX);
    rt_st.futex_waits++;
    // preemption between the caller's last check and the wait
    if (nthreads > 1) { expire(); T *t = choose(self, 0, RT_P_FUTEX); if (t && t != self) { rt_st.preempt++; switch_to(t); } }
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { LEAVE(); errno = EAGAIN; return -1; }
    if (rt_fault(RT_F_SPURIOUS, 1)) { LEAVE(); errno = EINTR; return -1; }
    T *me = self;
    me->deadline = 0;
    if (ts) {
      uint64_t d = (uint64_t)ts->tv_sec * 1000000000ULL + (uint64_t)ts->tv_nsec;
      if (cmd == FUTEX_WAIT) d = mono_ns + d;
      else if (op & FUTEX_CLOCK_REALTIME) d = d > real_ns ? mono_ns + (d - real_ns) : mono_ns;
      if (d <= mono_ns) { LEAVE(); errno = ETIMEDOUT; return -1; }
      me->deadline = d ? d : 1;
    }
    me->waddr = addr; me->state = T_FUTEX; me->wake_reason = 0;
    block_and_switch();
    me->waddr = 0;
    int wr = me->wake_reason;
    me->deadline = 0;
    LEAVE();
    if (wr == 1) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    ENTER();
    int c[MAXT], n = 0; long woken = 0;
    for (int i = 0; i < nthreads; i++) if (threads[i].state == T_FUTEX && threads[i].waddr == addr) c[n++] = i;
    while (n && (uint32_t)woken < val) {
      // the kernel may wake any waiter: pick one with the recorded schedule stream
      int k = 0;
      if (n > 1 && (uint32_t)n > val) k = (int)(rt_fault(RT_F_WAKE_ORDER, (uint64_t)n) % (uint64_t)n);
      threads[c[k]].state = T_READY; threads[c[k]].wake_reason = 0; threads[c[k]].deadline = 0;
      c[k] = c[--n]; woken++;
    }
    LEAVE();
    rt_point(RT_P_FUTEX);
    return woken;
  }
  return fix(raw6(SYS_futex, (long)addr, op, val, (long)ts, 0, bits));
}

static void fill_random(uint8_t *b, size_t n) {
  for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(mix(&s_rand) >> 13);
  rt_st.fired[RT_F_RANDOM]++;
}

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (ACTIVE()) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_getrandom) { fill_random((uint8_t *)a, (size_t)b); return b; }
  }
  return fix(raw6(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (self && sim_on) { fill_random(p, n); return (ssize_t)n; }
  return fix(raw6(SYS_getrandom, (long)p, (long)n, fl, 0, 0, 0));
}
int sched_yield(void) {
  if (ACTIVE()) { rt_yield(); return 0; }
  return (int)fix(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}
static void sim_sleep(uint64_t ns) {
  ENTER();
  tick(RT_P_BLOCK);
  self->deadline = mono_ns + (ns ? ns : 1); self->state = T_SLEEP;
  block_and_switch();
  LEAVE();
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
  if (ACTIVE()) { sim_sleep((uint64_t)ts->tv_sec * 1000000000ULL + (uint64_t)ts->tv_nsec); return 0; }
  return (int)fix(raw6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) {
  if (ACTIVE()) {
    uint64_t d = (uint64_t)ts->tv_sec * 1000000000ULL + (uint64_t)ts->tv_nsec;
    if (fl & TIMER_ABSTIME) { uint64_t now = c == CLOCK_REALTIME ? real_ns : mono_ns; d = d > now ? d - now : 0; }
    sim_sleep(d);
    return 0;
  }
  long r = raw6(SYS_clock_nanosleep, c, fl, (long)ts, (long)rem, 0, 0);
  return r < 0 ? (int)-r : 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (ACTIVE()) {
    ENTER();
    rt_st.clock_reads++;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
      uint64_t v = rt_fault(RT_F_CLOCK_REAL, 6);
      static const int64_t j[] = {0, -3600000000000LL, -1000000LL, -1000LL, 1000000LL, 3600000000000LL, 0};
      if (v) { if (v == 6) { real_ns -= real_ns % 1000000000ULL; } else real_ns = (uint64_t)((int64_t)real_ns + j[v]); }
      uint64_t r = real_ns;
      if (cfg.real_granularity) r -= r % cfg.real_granularity;
      ts->tv_sec = (time_t)(r / 1000000000ULL); ts->tv_nsec = (long)(r % 1000000000ULL);
    } else {
      uint64_t v = rt_fault(RT_F_CLOCK_MONO, 5);
      static const uint64_t j[] = {0, 1000ULL, 1000000ULL, 150000000ULL, 5000000000ULL, 7200000000000ULL};
      if (v) { mono_ns += j[v]; real_ns += j[v]; }
      uint64_t r = mono_ns;
      if (cfg.mono_granularity) r -= r % cfg.mono_granularity;
      ts->tv_sec = (time_t)(r / 1000000000ULL); ts->tv_nsec = (long)(r % 1000000000ULL);
    }
    LEAVE();
    return 0;
  }
  return (int)fix(raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec t; (void)tz; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}

// ---------------------------------------------------------------- heap with reproducible addresses
#define HEAP_BASE 0x100000000000UL
#define HEAP_SIZE (64UL << 30)
static char *heap_cur, *heap_end;
#define NCLS 256
static void *freel[NCLS];
static volatile int heap_lock, heap_limited;
// from here on the process may take `n` bytes more
void rt_heap_limit(size_t n) { if (heap_cur && heap_cur + n < heap_end) { heap_end = heap_cur + n; heap_limited = 1; } }
static int cls_of(size_t n, size_t *sz) {
  if (n <= 16) { *sz = 16; return 0; }
  int lg = 63 - __builtin_clzl(n - 1);            // 2^lg <= n-1 < 2^(lg+1)
  size_t base = 1UL << lg, stp = base >> 2; if (stp < 16) stp = 16;
  size_t k = (n - base + stp - 1) / stp;           // 1..4
  *sz = base + k * stp;
  return lg * 4 + (int)k;
}
static void hlock(void) { while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static void hunlock(void) { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }
void *rt_alloc(size_t n, size_t align) {
  if (align > 16) n = (n + align - 1 < align ? align : n), n = n < align ? align : n;
  size_t sz; void *r;
  if (align > 16) { n += align; }
  int c = cls_of(n, &sz);
  hlock();
  if (!heap_cur) {
    heap_cur = mmap((void *)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (heap_cur == MAP_FAILED) { heap_cur = mmap(0, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    heap_end = heap_cur + HEAP_SIZE;
  }
  if (freel[c] && align <= 16) { r = freel[c]; freel[c] = *(void **)r; }
  else {
    if (heap_cur + sz > heap_end) { if (heap_limited) { signal(SIGXFSZ, SIG_DFL); raise(SIGXFSZ); } hunlock(); return 0; }
    r = heap_cur; heap_cur += sz;
    if (align > 16) r = (void *)(((uintptr_t)r + align - 1) & ~(align - 1));
  }
  hunlock();
  return r;
}
void rt_dealloc(void *p, size_t n, size_t align) {
  if (align > 16) return; // rare; leaked for the life of the (short) process
  size_t sz; int c = cls_of(n, &sz);
  hlock(); *(void **)p = freel[c]; freel[c] = p; hunlock();
}

// ---------------------------------------------------------------- TSan callbacks: preemption points on atomics
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { (void)p; } void __tsan_write##n(void *p) { (void)p; } \
  void __tsan_unaligned_read##n(void *p) { (void)p; } void __tsan_unaligned_write##n(void *p) { (void)p; } \
  void __tsan_read_write##n(void *p) { (void)p; } void __tsan_unaligned_read_write##n(void *p) { (void)p; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; }
void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }

#define AT(B, ty) \
  ty __tsan_atomic##B##_load(const volatile ty *p, int mo) { (void)mo; rt_point(RT_P_ATOMIC); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##B##_store(volatile ty *p, ty v, int mo) { (void)mo; rt_point(RT_P_ATOMIC); __atomic_store_n(p, v, 5); } \
  ty __tsan_atomic##B##_exchange(volatile ty *p, ty v, int mo) { (void)mo; rt_point(RT_P_RMW); return __atomic_exchange_n(p, v, 5); } \
  ty __tsan_atomic##B##_fetch_add(volatile ty *p, ty v, int mo) { (void)mo; rt_point(RT_P_ATOMIC); return __atomic_fetch_add(p, v, 5); } \
  ty __tsan_atomic##B##_fetch_sub(volatile ty *p, ty v, int mo) { (void)mo; rt_point(RT_P_ATOMIC); return __atomic_fetch_sub(p, v, 5); } \
  ty __tsan_atomic##B##_fetch_and(volatile ty *p, ty v, int mo) { (void)mo; rt_point(RT_P_ATOMIC); return __atomic_fetch_and(p, v, 5); } \
  ty __tsan_atomic##B##_fetch_or(volatile ty *p, ty v, int mo) { (void)mo; rt_point(RT_P_ATOMIC); return __atomic_fetch_or(p, v, 5); } \
  ty __tsan_atomic##B##_fetch_xor(volatile ty *p, ty v, int mo) { (void)mo; rt_point(RT_P_ATOMIC); return __atomic_fetch_xor(p, v, 5); } \
  ty __tsan_atomic##B##_fetch_nand(volatile ty *p, ty v, int mo) { (void)mo; rt_point(RT_P_ATOMIC); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; rt_point(RT_P_RMW); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; rt_point(RT_P_RMW); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  ty __tsan_atomic##B##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int fmo) { (void)mo; (void)fmo; rt_point(RT_P_RMW); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; rt_point(RT_P_ATOMIC); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

#include "fs.inc"
