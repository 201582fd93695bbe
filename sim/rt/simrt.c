// Deterministic thread simulator.
//
// Every OS thread the process under test creates becomes a fibre: the real
// pthread is created only to obtain a stack and a TLS block, then its kernel
// thread parks for ever and this scheduler - running on ONE kernel thread -
// switches stack and FS base to run it.  Because the whole simulation lives on
// one kernel thread, a raw fork() snapshots it completely, worker threads
// included.
//
// Preemption points are the SanitizerCoverage callbacks compiled into the code
// under test (every basic-block edge, every load and store) and the intercepted
// libc calls below (futex, yield, sleep, thread creation...).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define NOCOV __attribute__((no_sanitize("coverage")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline uint64_t rdfs(void) { uint64_t v; __asm__ volatile("rdfsbase %0" : "=r"(v)); return v; }

// ---------------------------------------------------------------- state
enum { RUNNABLE = 1, BLOCKED = 2, FINISHED = 3 };
typedef struct Dtor { void (*fn)(void *); void *obj; struct Dtor *next; } Dtor;
typedef struct Fib {
  void *rsp; uint64_t fs;
  int id, state;
  uint32_t *futex; uint32_t bitset; uint64_t deadline; int timedout;
  struct Fib *joining;
  void *(*start)(void *); void *arg; void *ret;
  pthread_t pt; Dtor *dtors;
  int64_t prio; uint64_t stall_until; int started;
  volatile int ready;
  uint64_t waited;
} Fib;
#define MAXF 1024
static Fib *F[MAXF]; static int nf; static Fib *cur; static Fib main_fib;
int sim_on;                       // 0: pass everything through
static int in_rt;                 // inside the runtime (no preemption)

typedef struct {                  // mirrored in Rust (rt.rs)
  uint64_t seed;
  uint32_t policy;                // 0 run-to-block, 1 random, 2 pct, 3 round robin slices
  uint32_t mean_slice;            // mean number of steps between forced preemptions (0 = never)
  uint32_t hot_denom;             // preempt with 1/hot_denom at conflicting accesses (0 = never)
  uint32_t sync_denom;            // preempt with 1/sync_denom at intercepted calls
  uint32_t ncpu;                  // CPUs the process believes it has
  uint32_t stall_denom;           // 1/stall_denom of forced preemptions stall the thread
  uint64_t step_limit;
  uint64_t spawn_fail_from;       // thread creations number >= from and < to fail
  uint64_t spawn_fail_to;
  uint32_t spurious_denom;         // 1/spurious_denom of futex waits return at once (0 = never)
  uint32_t replay;                // 1: follow the decision list
  uint32_t rare_denom;            // preempt with 1/rare_denom at the first rare_hits executions of a basic block (0 = never); half of these stall
  uint32_t rare_hits;
} SimCfg;
static SimCfg C;
typedef struct { uint64_t step; uint32_t to; uint32_t kind; } Decision; // kind 1 forced preemption, 2 voluntary switch, 3 futex wake choice, 4 spurious wake-up
#define MAXD 400000
static Decision *rec; static uint32_t nrec; static int rec_on;
static Decision *rep; static uint32_t nrep, irep;

typedef struct {                  // mirrored in Rust
  uint64_t steps, switches, forced, hot, hot_preempts, sync_calls, futex_waits, futex_wakes, spawns, spawn_fails,
      stalls, timeouts, yields, sched_hash, max_fibres, finished, rnd_reads, clock_reads, pairs, live, idle_jumps, edges_seen, spurious, rare_preempts;
} SimStats;
SimStats S;
static uint64_t skew_ns; // virtual time = steps + skew
#define now_ns (S.steps + skew_ns)
static  uint64_t rng_s[4];
static int64_t countdown; static uint32_t spawn_count;
static int64_t low_prio;
#define ABORT_SZ 4096
char sim_abort_msg[ABORT_SZ];
static void (*abort_cb)(const char *);

static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd(void) {
  uint64_t r = rotl(rng_s[1] * 5, 7) * 9, t = rng_s[1] << 17;
  rng_s[2] ^= rng_s[0]; rng_s[3] ^= rng_s[1]; rng_s[1] ^= rng_s[2]; rng_s[0] ^= rng_s[3]; rng_s[2] ^= t; rng_s[3] = rotl(rng_s[3], 45);
  return r;
}
static void seed_rng(uint64_t s) { for (int i = 0; i < 4; i++) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; rng_s[i] = z ^ (z >> 31); } }
// separate stream for values handed to the program (hash keys), so that schedule draws do not move it
static uint64_t val_s; static uint64_t valrnd(void) { val_s += 0x9E3779B97F4A7C15ull; uint64_t z = val_s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static void new_slice(void) {
  if (C.replay) { countdown = 4000000; return; }         // fairness only
  if (C.policy == 0 || C.mean_slice == 0) { countdown = 1000000; return; }
  // geometric-ish: uniform in [1, 2*mean], one time in 16 very short
  uint64_t r = rnd();
  countdown = (r & 15) == 0 ? 1 + (int64_t)((r >> 8) % 8) : 1 + (int64_t)((r >> 8) % (2ull * C.mean_slice));
}

// ---------------------------------------------------------------- context switch
__attribute__((naked, noinline)) static void ctx_switch(void **save __attribute__((unused)), void *to __attribute__((unused)), uint64_t fs __attribute__((unused))) {
  __asm__ volatile(
      "push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15;"
      "sub $16,%rsp; stmxcsr (%rsp); fnstcw 8(%rsp);"
      "mov %rsp,(%rdi); mov %rsi,%rsp; wrfsbase %rdx;"
      "fldcw 8(%rsp); ldmxcsr (%rsp); add $16,%rsp;"
      "pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp; ret");
}

void sim_abort(const char *kind) __attribute__((noreturn));
void sim_abort(const char *kind) {
  in_rt = 1;
  char *p = sim_abort_msg; char *e = p + ABORT_SZ;
  p += snprintf(p, e - p, "%s: fibres", kind);
  for (int i = 0; i < nf && e - p > 80; i++)
    if (F[i]->state != FINISHED) p += snprintf(p, e - p, " %d:%s", F[i]->id, F[i]->state == RUNNABLE ? "run" : F[i]->joining ? "join" : "wait");
  if (abort_cb) abort_cb(sim_abort_msg);
  fprintf(stderr, "SIMABORT %s\n", sim_abort_msg);
  _exit(97);
}
void sim_set_abort_cb(void (*cb)(const char *)) { abort_cb = cb; }

static void hash_mix(uint64_t v) { S.sched_hash = (S.sched_hash ^ v) * 0x100000001b3ull; S.sched_hash ^= S.sched_hash >> 29; }
static uint32_t last_guard; static uint8_t *pairmap;
#define PAIRBITS 20

static void record(uint32_t to, uint32_t kind) { if (rec_on && nrec < MAXD) { rec[nrec].step = S.steps; rec[nrec].to = to; rec[nrec].kind = kind; nrec++; } }

static void switch_to(Fib *f) {
  if (f == cur) return;
  Fib *old = cur;
  S.switches++; hash_mix(S.steps * 1024 + f->id);
  if (pairmap) { uint32_t h = (last_guard * 0x9E3779B1u ^ (uint32_t)f->waited * 0x85EBCA6Bu) >> (32 - PAIRBITS); if (!pairmap[h]) { pairmap[h] = 1; S.pairs++; } }
  old->waited = last_guard;
  cur = f; in_rt = 0;
  ctx_switch(&old->rsp, f->rsp, f->fs);
}

// replay: the decision recorded for this step, if any (entries are in step order)
static uint64_t next_forced = UINT64_MAX;
static void find_next_forced(void) { next_forced = UINT64_MAX; for (uint32_t i = irep; i < nrep; i++) if (rep[i].kind == 1 && rep[i].step > S.steps) { next_forced = rep[i].step; return; } }
static int take(uint32_t kind, uint32_t *to) {
  while (irep < nrep && rep[irep].step < S.steps) irep++;
  for (uint32_t i = irep; i < nrep && rep[i].step == S.steps; i++) if (rep[i].kind == kind) { *to = rep[i].to; rep[i].kind = 0; return 1; }
  return 0;
}
static int runnable(Fib *f) { return f->state == RUNNABLE; }
static Fib *pick(int include_cur, int kind);
static void wake_timers(void) {
  for (int i = 0; i < nf; i++) { Fib *f = F[i];
    if (f->state == BLOCKED && f->deadline && f->deadline <= now_ns) { f->state = RUNNABLE; f->timedout = 1; f->futex = 0; f->deadline = 0; S.timeouts++; }
    if (f->stall_until && f->stall_until <= now_ns) f->stall_until = 0;
  }
}
// choose who runs next; never returns NULL (jumps the clock or aborts)
static Fib *pick(int include_cur, int kind) {
  for (;;) {
    Fib *c[MAXF]; int n = 0;
    for (int i = 0; i < nf; i++) if (runnable(F[i]) && !F[i]->stall_until && (include_cur || F[i] != cur)) c[n++] = F[i];
    if (n == 0) {
      if (!include_cur && cur->state == RUNNABLE && !cur->stall_until) return cur;
      // idle: jump to the next timer or end of a stall
      uint64_t t = UINT64_MAX;
      for (int i = 0; i < nf; i++) { Fib *f = F[i];
        if (f->state == BLOCKED && f->deadline && f->deadline < t) t = f->deadline;
        if (f->state == RUNNABLE && f->stall_until && f->stall_until < t) t = f->stall_until; }
      if (t == UINT64_MAX) sim_abort("deadlock");
      if (t > now_ns) skew_ns += t - now_ns;
      S.idle_jumps++;
      wake_timers(); continue;
    }
    if (C.replay) {
      uint32_t to; if (take((uint32_t)kind, &to)) for (int i = 0; i < n; i++) if ((uint32_t)c[i]->id == to) return c[i];
      Fib *best = 0; for (int i = 0; i < n; i++) if (c[i]->id > cur->id) { best = c[i]; break; }
      return best ? best : c[0];
    }
    if (C.policy == 2) { Fib *b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
    if (C.policy == 0 || C.policy == 3) { for (int i = 0; i < n; i++) if (c[i]->id > cur->id) return c[i]; return c[0]; }
    return c[rnd() % n];
  }
}
static void reschedule(int include_cur, int kind) {
  Fib *f = pick(include_cur, kind);
  if (f != cur || kind == 2) record(f->id, kind);
  new_slice();
  switch_to(f);
  in_rt = 0;
}
static int stop_faults;
static void forced(int sitekind) {
  // involuntary preemption of a runnable fibre
  in_rt = 1;
  wake_timers();
  int others = 0; for (int i = 0; i < nf; i++) if (F[i] != cur && runnable(F[i]) && !F[i]->stall_until) { others = 1; break; }
  if (!others) { new_slice(); in_rt = 0; return; }
  S.forced++;
  if (C.policy == 2) cur->prio = --low_prio;
  if ((C.stall_denom && rnd() % C.stall_denom == 0) || (sitekind == 3 && !stop_faults && rnd() % 2 == 0)) { cur->stall_until = now_ns + 1000 + rnd() % 50000000; S.stalls++; }
  reschedule(0, 1);
  if (C.replay) find_next_forced();
}
static inline void limit_check(void) { if (unlikely(S.steps > C.step_limit)) sim_abort("steplimit"); }

// ---------------------------------------------------------------- coverage callbacks
static uint32_t nguards; static uint8_t *edgeseen; static uint8_t *edgeall; // edgeall: shared by all episodes
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (; a < b; a++) *a = ++nguards; }
static uint16_t *rare;            // executions of a basic block in this run, up to rare_hits
static inline void step(void) {
  S.steps++;
  if (unlikely(--countdown <= 0)) forced(0);
}
static inline void replay_step(void) { if (unlikely(S.steps >= next_forced)) { find_next_forced(); forced(0); } }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (unlikely(!sim_on || in_rt)) return;
  last_guard = *g;
  if (edgeseen && !edgeseen[*g]) { edgeseen[*g] = 1; S.edges_seen++; if (edgeall) edgeall[*g] = 1; }
  step();
  if (C.rare_denom && rare[*g] < C.rare_hits && !C.replay && nf > 1) {
    rare[*g]++;
    if (rnd() % C.rare_denom == 0) { S.rare_preempts++; forced(3); }
  }
  if (unlikely(C.replay)) replay_step();
  limit_check();
}
// conflicting-access detection: word -> (last fibre, written)
#define SHB 16
static uint32_t *shadow;          // tag(20) | fib(10) | wrote(1) | valid(1)
static uint64_t stack_lo, stack_hi;
static inline void access_(uintptr_t a, int w) {
  if (unlikely(!sim_on || in_rt)) return;
  S.steps++;
  if (unlikely(C.replay)) { replay_step(); return; }
  if (nf < 2 || !shadow) return;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  if (a - sp + 4096 < (256u << 10)) return;   // own stack
  uint64_t k = a >> 3; uint32_t h = (uint32_t)(k * 0x9E3779B97F4A7C15ull >> (64 - SHB));
  uint32_t tag = (uint32_t)(k >> 3) & 0xfffff; uint32_t v = shadow[h];
  uint32_t mine = (tag << 12) | ((uint32_t)(cur->id & 1023) << 2) | 1;
  if ((v & 1) && (v >> 12) == tag) {
    int same = ((v >> 2) & 1023) == (uint32_t)(cur->id & 1023), wrote = (v >> 1) & 1;
    if (!same && (wrote || w)) {
      shadow[h] = mine | (w ? 2u : 0u); S.hot++;
      if (C.hot_denom && rnd() % C.hot_denom == 0) { S.hot_preempts++; forced(1); }
      return;
    }
    if (!same) mine |= 0; 
    shadow[h] = mine | ((w || (same && wrote)) ? 2u : 0u);
    // a second access to a word this fibre recently raced on is a window too
    return;
  }
  shadow[h] = mine | (w ? 2u : 0u);
  (void)stack_lo; (void)stack_hi;
}
#define LS(n) void __sanitizer_cov_load##n(void *p) { access_((uintptr_t)p, 0); } void __sanitizer_cov_store##n(void *p) { access_((uintptr_t)p, 1); }
LS(1) LS(2) LS(4) LS(8) LS(16)

// writable static data of the executable: always treated as shared
// (covered by the shadow map, which keys on address only)

// ---------------------------------------------------------------- intercepted calls
static void sync_point(void) {
  if (!sim_on || in_rt) return;
  S.sync_calls++; S.steps++; limit_check();
  if (C.replay) { replay_step(); return; }
  if (C.sync_denom && C.policy && rnd() % C.sync_denom == 0) forced(2);
}
static long do_futex(uint32_t *u, int op, uint32_t val, const struct timespec *ts, uint32_t bits) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sync_point();
    if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    // a wait may return without a wake-up
    uint32_t sp = 0;
    if (C.replay) take(4, &sp); else if (C.spurious_denom && rnd() % C.spurious_denom == 0) { sp = 1; record(1, 4); }
    if (sp) { S.spurious++; return 0; }
    in_rt = 1; S.futex_waits++;
    cur->state = BLOCKED; cur->futex = u; cur->bitset = cmd == FUTEX_WAIT ? ~0u : bits; cur->timedout = 0; cur->deadline = 0;
    if (ts) { uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; cur->deadline = cmd == FUTEX_WAIT ? now_ns + t : t; if (!cur->deadline) cur->deadline = 1; if (cur->deadline <= now_ns) { cur->deadline = now_ns; } }
    wake_timers();
    if (cur->state == BLOCKED) reschedule(0, 2); else in_rt = 0;
    if (cur->timedout) { cur->timedout = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    in_rt = 1; S.futex_wakes++;
    uint32_t b = cmd == FUTEX_WAKE ? ~0u : bits; long n = 0; int left = (int)val;
    // waiters wake in a seeded order
    int idx[MAXF], k = 0; for (int i = 0; i < nf; i++) if (F[i]->state == BLOCKED && F[i]->futex == u && (F[i]->bitset & b)) idx[k++] = i;
    while (k > 0 && left > 0) { uint32_t j = 0; if (C.replay) { if (!take(3, &j) || j >= (uint32_t)k) j = 0; } else if (C.policy && k > 1) { j = (uint32_t)(rnd() % (uint64_t)k); record(j, 3); } Fib *f = F[idx[j]]; f->state = RUNNABLE; f->futex = 0; f->deadline = 0; idx[j] = idx[--k]; left--; n++; }
    in_rt = 0;
    sync_point();
    return n;
  }
  sim_abort("unsupported-futex-op");
}
ssize_t getrandom(void *p, size_t n, unsigned fl);
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (sim_on) {
    if (n == SYS_futex) return do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_getrandom) { for (long i = 0; i < b; i++) ((uint8_t *)a)[i] = (uint8_t)valrnd(); S.rnd_reads++; return b; }
    if (n == SYS_gettid) return 100 + cur->id;
  }
  if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  (void)fl;                       // also before and between simulations: static constructors draw hash keys
  for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)valrnd();
  if (sim_on) S.rnd_reads++;
  return (ssize_t)n;
}
int sched_yield(void) {
  if (!sim_on || in_rt) return 0;
  S.yields++; S.steps++; limit_check();
  in_rt = 1; wake_timers();
  if (C.policy == 2 && !C.replay) cur->prio = --low_prio;
  reschedule(0, 2);
  return 0;
}
static int vsleep(uint64_t ns) {
  in_rt = 1; cur->state = BLOCKED; cur->futex = 0; cur->deadline = now_ns + (ns ? ns : 1); cur->timedout = 0; S.steps++;
  reschedule(0, 2); cur->timedout = 0; return 0;
}
int nanosleep(const struct timespec *a, struct timespec *r) { if (!sim_on) return (int)raw6(SYS_nanosleep, (long)a, (long)r, 0, 0, 0, 0); return vsleep((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *r) {
  if (!sim_on) return (int)-raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)r, 0, 0);
  uint64_t t = (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec; if (fl & TIMER_ABSTIME) t = t > now_ns ? t - now_ns : 0; return vsleep(t);
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, 0); }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!sim_on) { long r = raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  S.clock_reads++; uint64_t v = now_ns + (c == CLOCK_REALTIME ? 1700000000000000000ull : 0);
  t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull); return 0;
}
int sched_getaffinity(pid_t p, size_t sz, cpu_set_t *m) {
  if (!sim_on) { long r = raw6(SYS_sched_getaffinity, p, (long)sz, (long)m, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } memset((char *)m + r, 0, sz - (size_t)r); return 0; }
  memset(m, 0, sz); for (uint32_t i = 0; i < C.ncpu; i++) CPU_SET_S(i, sz, m); return 0;
}
long sysconf(int name) {
  static long (*real)(int); if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  if (sim_on && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return C.ncpu;
  return real(name);
}
int sched_getcpu(void) { return 0; }
static int hidden(const char *p) { return sim_on && (!strncmp(p, "/sys/fs/cgroup", 14) || !strncmp(p, "/proc/self/cgroup", 17) || !strncmp(p, "/proc/self/mountinfo", 20) || !strncmp(p, "/proc/cpuinfo", 13)); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (hidden(p)) { errno = ENOENT; return -1; } long r = raw6(SYS_openat, AT_FDCWD, (long)p, fl | O_LARGEFILE, m, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (hidden(p)) { errno = ENOENT; return -1; } long r = raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
int sigaltstack(const stack_t *ss, stack_t *old) {
  if (!sim_on) { long r = raw6(SYS_sigaltstack, (long)ss, (long)old, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  if (old) { memset(old, 0, sizeof *old); old->ss_flags = SS_DISABLE; } return 0;
}
// thread-local destructors (Rust std registers them here)
int __cxa_thread_atexit_impl(void (*fn)(void *), void *obj, void *dso) {
  (void)dso; Fib *f = cur ? cur : &main_fib; Dtor *d = malloc(sizeof *d); d->fn = fn; d->obj = obj; d->next = f->dtors; f->dtors = d; return 0;
}

// ---------------------------------------------------------------- threads
static void fib_main(void) {
  Fib *f = cur; in_rt = 0;
  f->ret = f->start(f->arg);
  while (f->dtors) { Dtor *d = f->dtors; f->dtors = d->next; d->fn(d->obj); free(d); }
  in_rt = 1; f->state = FINISHED; S.finished++;
  for (int i = 0; i < nf; i++) if (F[i]->state == BLOCKED && F[i]->joining == f) { F[i]->state = RUNNABLE; F[i]->joining = 0; }
  // drop from table so that ids stay dense for scheduling scans
  for (int i = 0; i < nf; i++) if (F[i] == f) { memmove(&F[i], &F[i + 1], (size_t)(nf - i - 1) * sizeof F[0]); nf--; break; }
  reschedule(0, 2);
  __builtin_trap();
}
static void *tramp(void *p) {
  Fib *f = p; f->fs = rdfs();
  uint64_t *sp = (uint64_t *)(((uintptr_t)__builtin_frame_address(0) - 16384) & ~63ull);
  *--sp = 0; *--sp = (uint64_t)fib_main;           // return address -> fib_main (rsp%16==8 at entry)
  for (int i = 0; i < 6; i++) *--sp = 0;
  sp -= 2; ((uint32_t *)sp)[0] = 0x1f80; ((uint32_t *)sp)[2] = 0x37f;
  f->rsp = sp;
  __atomic_store_n(&f->ready, 1, __ATOMIC_SEQ_CST);
  raw6(SYS_futex, (long)&f->ready, FUTEX_WAKE, 1, 0, 0, 0);
  static volatile int never;
  for (;;) raw6(SYS_futex, (long)&never, FUTEX_WAIT, 0, 0, 0, 0);
  return 0;
}
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int next_id = 1;
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
  if (!sim_on) return real_create(t, a, fn, arg);
  sync_point();
  in_rt = 1;
  uint64_t k = ++spawn_count;
  if (k >= C.spawn_fail_from && k < C.spawn_fail_to) { S.spawn_fails++; in_rt = 0; return EAGAIN; }
  if (nf >= MAXF - 1) { S.spawn_fails++; in_rt = 0; return EAGAIN; }
  Fib *f = calloc(1, sizeof *f); f->start = fn; f->arg = arg; f->id = next_id++; f->state = RUNNABLE;
  f->prio = C.policy == 2 ? (int64_t)(rnd() % 1000000) : 0;
  int r = real_create(t, a, tramp, f);
  if (r) { free(f); in_rt = 0; return r; }
  f->pt = *t;
  while (!__atomic_load_n(&f->ready, __ATOMIC_SEQ_CST)) raw6(SYS_futex, (long)&f->ready, FUTEX_WAIT, 0, 0, 0, 0);
  F[nf++] = f; S.spawns++; if ((uint64_t)nf > S.max_fibres) S.max_fibres = nf;
  in_rt = 0;
  sync_point();
  return 0;
}
static Fib *find_pt(pthread_t t) { for (int i = 0; i < nf; i++) if (F[i]->pt == t) return F[i]; return 0; }
int pthread_join(pthread_t t, void **ret) {
  static int (*real)(pthread_t, void **); 
  if (!sim_on) { if (!real) real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join"); return real(t, ret); }
  sync_point();
  Fib *f = find_pt(t);
  if (f && f->state != FINISHED) { in_rt = 1; cur->state = BLOCKED; cur->joining = f; cur->futex = 0; cur->deadline = 0; reschedule(0, 2); }
  if (ret) *ret = f ? f->ret : 0;
  return 0;
}

// ---------------------------------------------------------------- control
void sim_configure(const SimCfg *c, const Decision *d, uint32_t nd, int record_on) {
  in_rt = 1;
  uint64_t t0 = now_ns; C = *c; if (!C.step_limit) C.step_limit = UINT64_MAX; if (!C.ncpu) C.ncpu = 1;
  uint64_t live = 0; for (int i = 0; i < nf; i++) if (F[i]->state != FINISHED) live++;
  memset(&S, 0, sizeof S); skew_ns = t0; S.live = live; S.sched_hash = 0xcbf29ce484222325ull;
  seed_rng(C.seed); val_s = C.seed ^ 0x5851f42d4c957f2dull;
  rec_on = record_on; nrec = 0; if (record_on && !rec) rec = malloc(sizeof(Decision) * MAXD);
  if (nd) { rep = malloc(sizeof(Decision) * nd); memcpy(rep, d, sizeof(Decision) * nd); } nrep = nd; irep = 0;
  if (!pairmap) pairmap = calloc(1, 1u << PAIRBITS); else memset(pairmap, 0, 1u << PAIRBITS);
  if (!edgeseen) edgeseen = calloc(1, nguards + 2); else memset(edgeseen, 0, nguards + 2);
  if (!rare) rare = calloc(nguards + 2, 2); else memset(rare, 0, 2 * (nguards + 2)); stop_faults = 0;
  if (!shadow) shadow = calloc(1u << SHB, 4); else memset(shadow, 0, 4u << SHB);
  spawn_count = 0; low_prio = 0; last_guard = 0;
  for (int i = 0; i < nf; i++) { F[i]->prio = C.policy == 2 ? (int64_t)(rnd() % 1000000) : 0; F[i]->stall_until = 0; F[i]->waited = 0; }
  new_slice(); next_forced = UINT64_MAX; if (C.replay) find_next_forced();
  sim_on = 1; in_rt = 0;
}
uint32_t sim_edge_union(void) { uint32_t n = 0; if (edgeall) for (uint32_t i = 1; i <= nguards; i++) n += edgeall[i]; return n; }
void sim_start(void) { edgeall = mmap(0, nguards + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (edgeall == MAP_FAILED) edgeall = 0; main_fib.id = 0; main_fib.state = RUNNABLE; main_fib.fs = rdfs(); main_fib.pt = pthread_self(); cur = &main_fib; F[0] = cur; nf = 1; }
void sim_stop(void) { sim_on = 0; }
void sim_stats(SimStats *o) { *o = S; uint64_t live = 0; for (int i = 0; i < nf; i++) if (F[i]->state != FINISHED) live++; o->live = live; }
uint32_t sim_decisions(const Decision **d) { *d = rec; return nrec; }
uint32_t sim_nguards(void) { return nguards; }
const uint8_t *sim_edgeseen(void) { return edgeseen; }
uint64_t sim_now(void) { return now_ns; }
void sim_advance(uint64_t ns) { skew_ns += ns; }
int sim_cur(void) { return cur ? cur->id : 0; }
uint64_t sim_steps(void) { return S.steps; }
void sim_set_spawn_fail(uint64_t from, uint64_t to) { spawn_count = 0; C.spawn_fail_from = from; C.spawn_fail_to = to; }
void sim_set_step_limit(uint64_t extra) { C.step_limit = extra ? S.steps + extra : UINT64_MAX; }
void sim_preempt(void) { sync_point(); }
// let every other fibre run until all are blocked or finished (or max yields)
int sim_quiesce(uint32_t max) {
  C.stall_denom = 0; stop_faults = 1; for (int i = 0; i < nf; i++) F[i]->stall_until = 0; // faults stop
  for (uint32_t i = 0; i < max; i++) {
    int others = 0; for (int j = 0; j < nf; j++) if (F[j] != cur && F[j]->state == RUNNABLE) others = 1;
    if (!others) return 1;
    sched_yield();
  }
  return 0;
}
long sim_raw_fork(void) { return raw6(SYS_fork, 0, 0, 0, 0, 0, 0); }
