// Deterministic scheduler runtime.
//
// Sim threads are real OS threads, but exactly one of them runs at any moment: the
// others are parked on a private futex word.  Every instrumented edge, load and store
// (LLVM sanitizer coverage), every heap allocation and every callback is a scheduling
// point.  The blocking primitives of the standard library (futex), its clocks, sleeps
// and its source of random hash keys are interposed here, so nothing the program can
// observe comes from the real kernel scheduler, clock or entropy pool.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define MAXT 16
#define BIG INT64_MAX
enum { ST_NEW, ST_RUN, ST_BLOCK, ST_STALL, ST_SLEEP, ST_DONE };
enum { EV_SWITCH = 0, EV_FORCED = 1, EV_SPUR = 2, EV_EINTR = 3, EV_WAKE = 4 };
enum { POL_SERIAL, POL_GEOM, POL_PCT, POL_CB, POL_REPLAY };
enum { K_EDGE, K_MEM, K_ALLOC, K_CB, K_FUTEX, K_YIELD };

typedef struct {
  int id;
  volatile uint32_t turn;
  int state;
  const void *key;       // futex address or wait key
  uint32_t bitset;
  int timed;
  int64_t deadline;      // sim ns
  int wake_rc;           // 0, -ETIMEDOUT, -EINTR
  int nopreempt;
  int refuse;            // allocator refuses
  uint64_t rnd_ctr;
  int prio;
  uint32_t last;         // last edge executed
} Th;

typedef struct { int64_t step; int32_t kind; int32_t val; } Ev;

typedef struct {
  int32_t policy;
  int32_t count_alloc;
  int32_t count_mem;
  int32_t npct;
  uint64_t seed;
  uint64_t hash_seed;
  double mean;       // geometric mean distance
  double cb_p;
  double spur_p;
  int64_t max_preempt;
  int64_t max_steps;
  int64_t max_slice;
  int64_t pct_len;
  uint64_t rnd_base;
  const Ev *replay;
  int64_t nreplay;
} Cfg;

typedef struct {
  int64_t steps;
  int64_t switches;      // all baton passes
  int64_t preempts;      // of which involuntary
  int64_t futex_waits;
  int64_t futex_wakes;
  int64_t spurious;
  int64_t eintr;
  int64_t timeouts;
  int64_t sim_ns;
  int64_t allocs;
  int64_t refused;
  int64_t hash_keys;
  int64_t yields;
  int64_t sleeps;
  int64_t stalls;
  uint64_t sig;          // hash of the switch sequence
  int64_t nev;
  int64_t ev_overflow;
} Stat;

static Th th[MAXT];
static int nth_;
static __thread Th *self __attribute__((tls_model("initial-exec")));
static volatile uint32_t main_turn;
static int active;
static int cur = -1;
static Cfg cfg;
Stat rt_stat;
static int64_t budget = BIG, slice_len = BIG;
static int64_t steps_base;
static int64_t last_switch_step;
static int64_t clock_off;
static uint64_t rng;
static int64_t pct_at[16];
static int pct_i, pct_low;
static Ev *evs;
static int64_t nev0, *nevp = &nev0, capev;
static int64_t rep_i;
#define COVMAX (1 << 20)
static uint32_t nguards;
static uint8_t cov0[COVMAX], *cov = cov0;      // edges executed
#define PAIRMAX (1 << 21)
static uint8_t pair0[PAIRMAX], *pairs = pair0; // (edge left, edge entered) at a switch
void rt_share(uint8_t *c, uint8_t *p) { cov = c; pairs = p; }
static uint64_t hash_seed_main;
static uint64_t main_rnd_ctr;
static int use_fake_random;

// hooks provided by the Rust side
extern void pd_on_fatal(int kind);                            // never returns
extern void pd_on_stall_block(uint32_t stalled, uint32_t blocked);

static long raw6(long nr, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t rnd(void) { rng += 0x9E3779B97F4A7C15ull; return mix(rng); }
static double frnd(void) { return (double)(rnd() >> 11) / 9007199254740992.0; }

static int64_t now_steps(void) { return steps_base + (slice_len - budget); }
int64_t rt_steps(void) { return active ? now_steps() : rt_stat.steps; }
static int64_t sim_now(void) { return 1000000000000ll + now_steps() * 20 + clock_off; }

static void set_budget(int64_t n) {
  steps_base = now_steps();
  if (steps_base + n > cfg.max_steps && cfg.max_steps > steps_base) n = cfg.max_steps - steps_base;
  if (n < 1) n = 1;
  slice_len = budget = n;
}
// distance to the next point where slow() must look at something
static void arm(void) {
  int64_t n = cfg.max_slice - (now_steps() - last_switch_step);
  if (n < 1) n = 1;
  switch (cfg.policy) {
    case POL_GEOM:
      if (rt_stat.preempts < cfg.max_preempt) {
        double u = frnd();
        if (u < 1e-12) u = 1e-12;
        double d = 1.0;
        // geometric by inversion, -ln(u)*mean, with a cheap log
        extern double log(double);
        d = -log(u) * cfg.mean;
        if (d < (double)n) n = (int64_t)d;
      }
      break;
    case POL_PCT:
      while (pct_i < cfg.npct && pct_at[pct_i] < now_steps()) pct_i++;
      if (pct_i < cfg.npct && pct_at[pct_i] - now_steps() < n) n = pct_at[pct_i] - now_steps();
      break;
    case POL_REPLAY:
      while (rep_i < cfg.nreplay && cfg.replay[rep_i].step < now_steps()) rep_i++;
      for (int64_t i = rep_i; i < cfg.nreplay; i++) {
        if (cfg.replay[i].kind == EV_SWITCH || cfg.replay[i].kind == EV_SPUR || cfg.replay[i].kind == EV_EINTR) {
          int64_t d = cfg.replay[i].step - now_steps();
          if (d < n) n = d;
          break;
        }
      }
      break;
    default: break;
  }
  set_budget(n);
}

static void ev_add(int kind, int val) {
  int64_t n = *nevp;
  if (n >= capev) { rt_stat.ev_overflow++; return; }
  evs[n].step = now_steps();
  evs[n].kind = kind;
  evs[n].val = val;
  *nevp = n + 1;
}

static void wait_turn(volatile uint32_t *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void give(volatile uint32_t *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static int runnable_list(int *l) {
  int n = 0;
  for (int i = 0; i < nth_; i++) if (th[i].state == ST_RUN) l[n++] = i;
  return n;
}
static int default_next(int from) {
  for (int k = 1; k <= nth_; k++) { int i = (from + k) % nth_; if (th[i].state == ST_RUN) return i; }
  return -1;
}
static void pass_to(int t) {   // called by the running sim thread
  Th *me = self;
  rt_stat.switches++;
  last_switch_step = now_steps();
  rt_stat.sig = mix(rt_stat.sig ^ (uint64_t)(t + 1) * 0x9E37 ^ ((uint64_t)now_steps() << 8));
  cur = t;
  if (t == me->id) return;
  pairs[mix(((uint64_t)me->last << 32) | th[t].last) & (PAIRMAX - 1)] = 1;
  give(&th[t].turn);
  wait_turn(&me->turn);
}
static void expire_timed(void) {
  int64_t n = sim_now();
  for (int i = 0; i < nth_; i++)
    if ((th[i].state == ST_SLEEP || (th[i].state == ST_BLOCK && th[i].timed)) && th[i].deadline <= n) {
      th[i].wake_rc = -ETIMEDOUT;
      th[i].state = ST_RUN;
      rt_stat.timeouts++;
    }
}
static int replay_forced(int kind, int *val) {
  if (cfg.policy != POL_REPLAY) return 0;
  while (rep_i < cfg.nreplay && cfg.replay[rep_i].step < now_steps()) rep_i++;
  for (int64_t i = rep_i; i < cfg.nreplay && cfg.replay[i].step == now_steps(); i++)
    if (cfg.replay[i].kind == kind) {
      *val = cfg.replay[i].val;
      rep_i = i + 1;
      return 1;
    }
  return 0;
}
static int pick_forced(int from) { // current thread cannot continue: choose who runs
  int l[MAXT], n = runnable_list(l);
  if (!n) return -1;
  int d = default_next(from), t = d, v;
  switch (cfg.policy) {
    case POL_REPLAY: if (replay_forced(EV_FORCED, &v) && v >= 0 && v < nth_ && th[v].state == ST_RUN) t = v; break;
    case POL_PCT: t = l[0]; for (int i = 1; i < n; i++) if (th[l[i]].prio > th[t].prio) t = l[i]; break;
    case POL_SERIAL: break;
    default: t = l[rnd() % n];
  }
  if (t != d) ev_add(EV_FORCED, t);
  return t;
}
static void spurious_wake(int i, int rc) {
  if (th[i].state != ST_BLOCK) return;
  th[i].state = ST_RUN;
  th[i].wake_rc = rc;
  if (rc) rt_stat.eintr++; else rt_stat.spurious++;
  ev_add(rc ? EV_EINTR : EV_SPUR, i);
}
static void replay_spurious(void) {
  if (cfg.policy != POL_REPLAY) return;
  while (rep_i < cfg.nreplay && cfg.replay[rep_i].step < now_steps()) rep_i++;
  while (rep_i < cfg.nreplay && cfg.replay[rep_i].step == now_steps()) {
    const Ev *e = &cfg.replay[rep_i];
    if (e->kind != EV_SPUR && e->kind != EV_EINTR) break;
    rep_i++;
    if (e->val >= 0 && e->val < nth_) spurious_wake(e->val, e->kind == EV_EINTR ? -EINTR : 0);
  }
}
static void maybe_spurious(void) {
  if (cfg.policy == POL_REPLAY || cfg.spur_p <= 0) return;
  for (int i = 0; i < nth_; i++)
    if (th[i].state == ST_BLOCK && th[i].bitset && frnd() < cfg.spur_p) spurious_wake(i, (rnd() & 1) ? -EINTR : 0);
}
// The running thread cannot go on; hand the baton to somebody.  Returns when this thread
// is chosen again (or immediately if main takes over, for a finished thread).
static void block_switch(int finished) {
  Th *me = self;
  for (;;) {
    budget--; // a step of its own, so that events here and at scheduling points never share one
    maybe_spurious();
    replay_spurious();
    expire_timed();
    int t = pick_forced(me->id);
    if (t >= 0) {
      arm();
      if (finished) {
        rt_stat.switches++;
        last_switch_step = now_steps();
        rt_stat.sig = mix(rt_stat.sig ^ (uint64_t)(t + 1) * 0x9E37 ^ ((uint64_t)now_steps() << 8));
        cur = t;
        give(&th[t].turn);
        return;
      }
      pass_to(t);
      return;
    }
    // nobody can run: let time pass
    int64_t best = BIG;
    for (int i = 0; i < nth_; i++)
      if ((th[i].state == ST_SLEEP || (th[i].state == ST_BLOCK && th[i].timed)) && th[i].deadline < best) best = th[i].deadline;
    if (best != BIG) {
      if (best > sim_now()) clock_off += best - sim_now();
      expire_timed();
      continue;
    }
    uint32_t st = 0, bl = 0;
    for (int i = 0; i < nth_; i++) {
      if (th[i].state == ST_STALL) st |= 1u << i;
      if (th[i].state == ST_BLOCK) bl |= 1u << i;
    }
    if (st) {
      if (bl) pd_on_stall_block(st, bl);
      clock_off += 3600ll * 1000000000ll; // a long stall ends
      int i = __builtin_ctz(st);
      th[i].state = ST_RUN;
      continue;
    }
    if (bl) { pd_on_fatal(1); }
    // everything is done
    cur = -1;
    give(&main_turn);
    return;
  }
}
static void preempt_to(int t) {
  rt_stat.preempts++;
  pass_to(t);
}
static void __attribute__((noinline)) slow(void) {
  if (!active || !self) { budget = slice_len = BIG; return; }
  if (now_steps() >= cfg.max_steps) pd_on_fatal(2);
  expire_timed();
  Th *me = self;
  int l[MAXT], n;
  int v;
  maybe_spurious();
  replay_spurious();
  n = runnable_list(l);
  int t = me->id;
  switch (cfg.policy) {
    case POL_GEOM:
      if (n > 1 && rt_stat.preempts < cfg.max_preempt) { do t = l[rnd() % n]; while (t == me->id); }
      break;
    case POL_PCT:
      if (pct_i < cfg.npct && pct_at[pct_i] <= now_steps()) { me->prio = --pct_low; pct_i++; }
      t = l[0];
      for (int i = 1; i < n; i++) if (th[l[i]].prio > th[t].prio) t = l[i];
      break;
    case POL_REPLAY:
      if (replay_forced(EV_SWITCH, &v) && v >= 0 && v < nth_ && th[v].state == ST_RUN) t = v;
      break;
    default: break;
  }
  if (t == me->id && now_steps() - last_switch_step >= cfg.max_slice) {
    // fairness: a deterministic rule, so it needs no event in the trace
    last_switch_step = now_steps();
    int d = default_next(me->id);
    if (cfg.policy == POL_PCT && d >= 0 && d != me->id) me->prio = --pct_low;
    if (d >= 0 && d != me->id) { arm(); rt_stat.preempts++; pass_to(d); return; }
  }
  if (t != me->id) {
    ev_add(EV_SWITCH, t);
    arm();
    preempt_to(t);
    return;
  }
  arm();
}
static inline void point(void) { if (__builtin_expect(--budget <= 0, 0)) slow(); }

// ---- sanitizer coverage --------------------------------------------------
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  for (; a < b; a++) if (!*a) *a = ++nguards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  uint32_t i = *g;
  if (i < COVMAX) cov[i] = 1;
  if (self && active && !self->nopreempt) { self->last = i; point(); }
}
#define MEM(n, t) void n(t *p) { (void)p; if (self && active && cfg.count_mem && !self->nopreempt) point(); }
MEM(__sanitizer_cov_load1, void) MEM(__sanitizer_cov_load2, void) MEM(__sanitizer_cov_load4, void)
MEM(__sanitizer_cov_load8, void) MEM(__sanitizer_cov_load16, void)
MEM(__sanitizer_cov_store1, void) MEM(__sanitizer_cov_store2, void) MEM(__sanitizer_cov_store4, void)
MEM(__sanitizer_cov_store8, void) MEM(__sanitizer_cov_store16, void)
uint32_t rt_nguards(void) { return nguards; }

// ---- API used by the Rust side --------------------------------------------
static volatile uint32_t entered;
void rt_setup(int n, const Cfg *c, Ev *buf, int64_t cap, int64_t *np) {
  memset(th, 0, sizeof th);
  memset(&rt_stat, 0, sizeof rt_stat);
  nth_ = n;
  cfg = *c;
  rng = mix(c->seed ^ 0x5C4ED);
  evs = buf; capev = cap; nevp = np; *nevp = 0; rep_i = 0; entered = 0; active = 0;
  steps_base = 0; last_switch_step = 0; clock_off = 0;
  cur = -1; main_turn = 0;
  pct_i = 0; pct_low = 0;
  for (int i = 0; i < n; i++) { th[i].id = i; th[i].rnd_ctr = c->rnd_base; }
  if (cfg.policy == POL_PCT) {
    int perm[MAXT];
    for (int i = 0; i < n; i++) perm[i] = i + 1;
    for (int i = n - 1; i > 0; i--) { int j = rnd() % (i + 1), x = perm[i]; perm[i] = perm[j]; perm[j] = x; }
    for (int i = 0; i < n; i++) th[i].prio = perm[i];
    if (cfg.npct > 16) cfg.npct = 16;
    for (int i = 0; i < cfg.npct; i++) pct_at[i] = rnd() % (cfg.pct_len + 1);
    for (int i = 0; i < cfg.npct; i++) for (int j = i + 1; j < cfg.npct; j++)
      if (pct_at[j] < pct_at[i]) { int64_t x = pct_at[i]; pct_at[i] = pct_at[j]; pct_at[j] = x; }
  }
  budget = slice_len = BIG;
}
void rt_hash_seed(uint64_t s) { hash_seed_main = s; main_rnd_ctr = 0; use_fake_random = 1; }
// called by a new sim thread before it does anything
void rt_enter(int id) {
  self = &th[id];
  self->state = ST_RUN;
  __atomic_add_fetch(&entered, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&entered, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
  wait_turn(&self->turn);
}
void rt_wait_entered(uint32_t n) {
  for (;;) {
    uint32_t e = __atomic_load_n(&entered, __ATOMIC_ACQUIRE);
    if (e >= n) return;
    raw6(SYS_futex, (long)&entered, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, e, 0, 0, 0);
  }
}
void rt_go(void) { // main: run the simulation to completion
  active = 1;
  last_switch_step = 0;
  steps_base = 0; budget = slice_len = 0;
  int l[MAXT], n = runnable_list(l), t = n ? l[0] : -1, v;
  if (t >= 0) {
    if (cfg.policy == POL_REPLAY) { if (replay_forced(EV_FORCED, &v) && v >= 0 && v < nth_) t = v; }
    else if (cfg.policy == POL_PCT) { for (int i = 1; i < n; i++) if (th[l[i]].prio > th[t].prio) t = l[i]; }
    else if (cfg.policy != POL_SERIAL) t = l[rnd() % n];
    if (t != l[0]) ev_add(EV_FORCED, t);
    arm();
    cur = t;
    give(&th[t].turn);
    wait_turn(&main_turn);
  }
  rt_stat.steps = now_steps();
  rt_stat.sim_ns = now_steps() * 20 + clock_off;
  rt_stat.nev = *nevp;
  active = 0;
  budget = slice_len = BIG;
}
void rt_finish(void) { // sim thread: done with its program; parks until main releases it
  point();
  self->state = ST_DONE;
  block_switch(1);
  wait_turn(&self->turn); // `self` stays set: operations run during thread teardown need it
}
void rt_release(int id) { give(&th[id].turn); }
void rt_snapshot_stat(void) { if (active) { rt_stat.steps = now_steps(); rt_stat.sim_ns = now_steps() * 20 + clock_off; rt_stat.nev = *nevp; } }
int rt_tid(void) { return self ? self->id : -1; }
int rt_is_active(void) { return active && self; }
int rt_nopreempt(int d) { if (self) { self->nopreempt += d; return self->nopreempt; } return 0; }
int rt_nopreempt_set(int d) { if (self) { int o = self->nopreempt; self->nopreempt = d; return o; } return 0; }
static __thread int refuse_main;
void rt_refuse(int on) { if (self) self->refuse = on; else refuse_main = on; }
int64_t rt_refused(void) { return rt_stat.refused; }
void rt_cb_point(void) {
  if (!self || !active || self->nopreempt) return;
  if (cfg.policy == POL_CB) {
    if (frnd() < cfg.cb_p && rt_stat.preempts < cfg.max_preempt) {
      int l[MAXT], n = runnable_list(l);
      budget--;
      if (n > 1) {
        int t;
        do t = l[rnd() % n]; while (t == self->id);
        maybe_spurious();
        ev_add(EV_SWITCH, t);
        arm();
        preempt_to(t);
        return;
      }
      if (budget <= 0) slow();
      return;
    }
  }
  point();
}
void rt_stall(void) {
  if (!self || !active) return;
  rt_stat.stalls++;
  point();
  self->state = ST_STALL;
  self->key = 0;
  block_switch(0);
}
void rt_sleep_ns(int64_t ns) {
  if (!self || !active) return;
  rt_stat.sleeps++;
  point();
  self->deadline = sim_now() + ns;
  self->state = ST_SLEEP;
  block_switch(0);
}
// condition-style waiting for simulator-level objects (pipes)
void rt_block_on(const void *key) {
  if (!self || !active) return;
  // no scheduling point here: the caller has just looked at the condition
  self->state = ST_BLOCK; self->key = key; self->bitset = 0; self->timed = 0; self->wake_rc = 0;
  block_switch(0);
}
void rt_wake_all(const void *key) {
  for (int i = 0; i < nth_; i++)
    if (th[i].state == ST_BLOCK && th[i].key == key) th[i].state = ST_RUN;
}
static void yield_(void) {
  rt_stat.yields++;
  point();
  expire_timed();
  int d = default_next(self->id);
  if (d >= 0 && d != self->id) { if (cfg.policy == POL_PCT) self->prio = --pct_low; arm(); pass_to(d); }
  else if (d < 0 || d == self->id) {
    // alone: let sleeping threads' time pass so that a spin on them ends
    int64_t best = BIG;
    for (int i = 0; i < nth_; i++)
      if ((th[i].state == ST_SLEEP || (th[i].state == ST_BLOCK && th[i].timed)) && th[i].deadline < best) best = th[i].deadline;
    if (best != BIG && best > sim_now()) { clock_off += best - sim_now(); expire_timed(); }
    else {
      uint32_t st = 0;
      for (int i = 0; i < nth_; i++) if (th[i].state == ST_STALL) st |= 1u << i;
      static int64_t last; // spinning while somebody is stalled
      if (st && now_steps() - last > 200000) {
        last = now_steps();
        pd_on_stall_block(st, 1u << self->id);
        th[__builtin_ctz(st)].state = ST_RUN;
      }
    }
  }
}

// ---- interposed libc --------------------------------------------------------
static int64_t ts_ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t *a2, uint32_t v3) {
  int cmd = op & FUTEX_CMD_MASK;
  expire_timed();
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    rt_stat.futex_waits++;
    self->key = addr;
    self->bitset = cmd == FUTEX_WAIT_BITSET ? v3 : FUTEX_BITSET_MATCH_ANY;
    self->timed = to != 0;
    if (to) self->deadline = cmd == FUTEX_WAIT ? sim_now() + ts_ns(to) : ts_ns(to);
    self->wake_rc = 0;
    self->state = ST_BLOCK;
    block_switch(0);
    return self->wake_rc;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bs = cmd == FUTEX_WAKE_BITSET ? v3 : FUTEX_BITSET_MATCH_ANY;
    long woken = 0;
    rt_stat.futex_wakes++;
    while ((uint32_t)woken < val) {
      int l[MAXT], n = 0;
      for (int i = 0; i < nth_; i++)
        if (th[i].state == ST_BLOCK && th[i].key == addr && (th[i].bitset & bs)) l[n++] = i;
      if (!n) break;
      int t = l[0], v;
      if (n > 1 && val < (uint32_t)n + woken) {
        if (cfg.policy == POL_REPLAY) { if (replay_forced(EV_WAKE, &v)) for (int i = 0; i < n; i++) if (l[i] == v) t = v; }
        else t = l[rnd() % n];
        if (t != l[0]) ev_add(EV_WAKE, t);
      }
      th[t].state = ST_RUN;
      th[t].wake_rc = 0;
      woken++;
    }
    point();
    return woken;
  }
  return raw6(SYS_futex, (long)addr, op, val, (long)to, (long)a2, v3);
}
long pd_syscall(long nr, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long pd_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  long r;
  if (nr == SYS_futex && self && active) r = sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
  else if (nr == SYS_sched_yield && self && active) { yield_(); return 0; }
  else r = raw6(nr, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
ssize_t getrandom(void *p, size_t l, unsigned fl) {
  if (!use_fake_random) {
    long r = raw6(SYS_getrandom, (long)p, l, fl, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return r;
  }
  rt_stat.hash_keys++;
  uint64_t *ctr = self ? &self->rnd_ctr : &main_rnd_ctr;
  uint64_t id = self ? self->id + 1 : 0;
  uint8_t *q = p;
  for (size_t i = 0; i < l; i++) {
    uint64_t x = mix(hash_seed_main ^ mix(id * 1000003 + (*ctr)++));
    q[i] = (uint8_t)x;
  }
  return l;
}
int sched_yield(void) {
  if (self && active) { yield_(); return 0; }
  return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (self && active) {
    int64_t n = sim_now() + (id == CLOCK_REALTIME ? 1700000000000000000ll : 0);
    ts->tv_sec = n / 1000000000ll;
    ts->tv_nsec = n % 1000000000ll;
    if (!self->nopreempt) point();
    return 0;
  }
  long r = raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (self && active) { rt_sleep_ns(ts_ns(req)); return 0; }
  long r = raw6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *req, struct timespec *rem) {
  if (self && active) {
    int64_t n = ts_ns(req);
    if (fl & TIMER_ABSTIME) n -= sim_now() + (c == CLOCK_REALTIME ? 1700000000000000000ll : 0);
    if (n > 0) rt_sleep_ns(n);
    return 0;
  }
  long r = raw6(SYS_clock_nanosleep, c, fl, (long)req, (long)rem, 0, 0);
  return r < 0 ? -r : 0;
}

// ---- deterministic allocator -------------------------------------------------
#define ARENA_BASE ((uint8_t *)0x100000000000ull)
#define ARENA_SIZE (1ull << 30)
static uint8_t *arena, *arena_end;
static void *freel[256];
static int cls_of(size_t n, size_t *sz) {
  if (n < 16) n = 16;
  int p = 63 - __builtin_clzll(n);      // 2^p <= n
  size_t base = (size_t)1 << p, step = base >> 2;
  int k = 0;
  size_t s = base;
  while (s < n) { s += step; k++; }
  *sz = (s + 15) & ~(size_t)15;
  return (p - 4) * 5 + k;
}
static volatile int alk;
static int64_t total_; // bytes the code under test has requested so far
int64_t rt_total(void) { return total_; }
static int64_t live_; // bytes the code under test has requested and not given back
int64_t rt_live(void) { return live_; }
static void lock_(void) { if (active) return; while (__atomic_exchange_n(&alk, 1, __ATOMIC_ACQUIRE)) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
static void unlock_(void) { if (active) return; __atomic_store_n(&alk, 0, __ATOMIC_RELEASE); }
void *rt_alloc(size_t n, size_t align) {
  Th *s = self;
  if (s ? (s->refuse && !s->nopreempt) : refuse_main) { rt_stat.refused++; return 0; }
  if (s && active) {
    rt_stat.allocs++;
    if (cfg.count_alloc && !s->nopreempt) point();
  }
  size_t sz;
  if (align > 16) n += align;
  int c = cls_of(n, &sz);
  lock_();
  if (!arena) {
    arena = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (arena == MAP_FAILED) _exit(97);
    arena_end = arena + ARENA_SIZE;
  }
  uint8_t *p;
  if (freel[c]) { p = freel[c]; freel[c] = *(void **)p; }
  else {
    if (arena + sz + 16 > arena_end) { unlock_(); return 0; }
    p = arena; arena += sz + 16;
    *(uint64_t *)p = c;
    p += 16;
  }
  uint64_t own = s && active && !s->nopreempt ? sz : 0;
  ((uint64_t *)p)[-1] = own;
  live_ += own;
  total_ += own;
  unlock_();
  if (align > 16) {
    uint8_t *q = (uint8_t *)(((uintptr_t)p + align) & ~(uintptr_t)(align - 1));
    // remember the original pointer just below the aligned one
    ((uint64_t *)q)[-1] = (uint64_t)(uintptr_t)p | 1;
    return q;
  }
  return p;
}
void rt_free(void *q, size_t n, size_t align) {
  (void)n;
  uint8_t *p = q;
  if (align > 16) p = (uint8_t *)(uintptr_t)(((uint64_t *)q)[-1] & ~1ull);
  lock_();
  int c = (int)*(uint64_t *)(p - 16);
  live_ -= ((uint64_t *)p)[-1];
  *(void **)p = freel[c];
  freel[c] = p;
  unlock_();
  if (self && active && cfg.count_alloc && !self->nopreempt) point();
}
