// Simulation runtime: owns scheduling, futexes, clocks, entropy, heap, stderr, environment of one simulated run.
// Not instrumented. Everything is inert until rt_begin() is called in a forked child.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)

// ---------------------------------------------------------------- PRNG
static inline uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// ---------------------------------------------------------------- types shared with Rust (keep in step with ffi.rs)
typedef struct {
  uint64_t sched_seed, entropy, addr_seed, env_seed;
  uint32_t policy;      // 0 none, 1 random quantum, 2 pct, 3 explicit, 4 at synchronisation points
  uint32_t cpus;        // answer to CPU-count queries from simulated code
  uint64_t qmin, qmax;  // policy 1: log-uniform quantum bounds
  uint64_t pct_total;   // policy 2
  uint32_t pct_d;
  uint32_t max_switches;
  uint32_t w_alloc, w_atomic, w_log, w_sync; // scheduling weight of each kind of point, in steps
  uint32_t poison;      // 0 none, else byte pattern | 0x100
  uint32_t lifo;        // heap reuse order
  uint64_t ns_per_kstep; // simulated ns per 1000 steps
  uint64_t mono0, real0;
  uint64_t call_limit, run_limit;  // steps
  uint64_t mem_limit;   // bytes live in library-owned blocks of one call
  uint32_t spurious;    // 1/n probability of a spurious futex wakeup (0: never)
  uint32_t fake_env;    // answer environment queries from simulated code with seeded values
  uint64_t expl_n;      // policy 3
  const uint64_t *expl; // triples: task, steps, next
  uint64_t nat_n;
  const uint64_t *nat;  // next
} RtCfg;

typedef struct { uint64_t at; uint32_t kind; uint32_t pad; int64_t arg; } RtEvent; // kind 1 mono jump, 2 real jump, 3 rate (ns per kstep), 4 preempt
typedef struct {
  int64_t fail_alloc_at;   // 1-based index of the allocation of this call that fails, 0 none
  int64_t fail_alloc_min;  // only allocations of at least this size count
  int64_t stderr_fault_at; // 1-based index of the write(2) that fails
  int64_t stderr_errno;    // errno; -1: short write; -2: all later writes fail with EPIPE too
  uint64_t nev;
  const RtEvent *ev;
} RtPlan;
typedef struct {
  uint64_t steps, allocs, frees, logs, peak, live, stderr_writes, stderr_bytes, clock_reads, t0_mono, t1_mono, getrandom_calls, env_reads, fired_alloc, fired_stderr, fired_clock, call_id, gstep0, gstep1, clk_first, clk_last;
} RtStats;
typedef struct {
  uint64_t switches, preempts, naturals, spurious, futex_waits, futex_wakes, timeouts, tasks, total_steps, sched_hash, event_hash, mono_ns, fired_fail_alloc, spawned, yields;
} RtRun;

enum { FREE = 0, RUNNABLE = 1, BLOCKED = 2, DONE = 3 };
#define MAXT 96
typedef struct {
  int64_t budget, grant;
  uint64_t steps, qend, limit;
  int id, state, in_lib, paused;
  uint32_t park;
  const volatile uint32_t *waddr;
  uint32_t wbits;
  uint64_t deadline; // mono ns, 0 none
  int timed_out, woken;
  pthread_t th;
  int prio;
  uint32_t last_guard;
  // current call
  uint64_t call_base;
  RtPlan plan;
  uint64_t evi;
  RtStats st;
  uint64_t cid;
  uint64_t expl_pos;
} Task;

static Task T[MAXT];
static int nT;
static __thread Task *me;
static int on;
static RtCfg C;
static RtRun R;
static uint64_t prng_sched, prng_entropy, prng_env;
static uint64_t rate_ns_per_kstep, mono_base, mono_off, real_off, rate_step0;
static pthread_key_t exit_key;
static uint64_t pct_pts[64]; static int pct_n, pct_i;
static uint64_t nat_pos;
// call live-bytes table
#define MAXCALL (1 << 20)
static int64_t *call_live;
static uint64_t next_cid = 1;
static int64_t lib_live; // bytes allocated by library calls and not yet given back, whole run
// recording
#define MAXREC 65536
static uint64_t (*rec)[3]; static uint64_t nrec;
static uint64_t *natrec; static uint64_t nnat;

static uint8_t *covmap; static uint32_t nguards;
static char *fatal_buf; static uint64_t fatal_cap;

static inline void hash_mix(uint64_t *h, uint64_t v) { *h = (*h ^ v) * 0x100000001b3ull; *h ^= *h >> 29; }

static void settle(Task *t) {
  int64_t used = t->grant - t->budget;
  if (used > 0) { t->steps += used; R.total_steps += used; t->grant = t->budget; }
}
static uint64_t now_mono(void) {
  if (me) settle(me);
  return mono_base + mono_off + (uint64_t)(((__uint128_t)(R.total_steps - rate_step0) * rate_ns_per_kstep) / 1000);
}
static void set_rate(uint64_t r) { uint64_t n = now_mono(); mono_base = n - mono_off; rate_step0 = R.total_steps; rate_ns_per_kstep = r; }

void rt_fatal(const char *kind, const char *fmt, ...) {
  if (fatal_buf) {
    va_list ap; va_start(ap, fmt);
    int n = snprintf(fatal_buf, fatal_cap, "%s|task=%d call=%lu|", kind, me ? me->id : -1, me ? (unsigned long)me->cid : 0ul);
    if (n > 0 && (uint64_t)n < fatal_cap) vsnprintf(fatal_buf + n, fatal_cap - n, fmt, ap);
    va_end(ap);
  }
  RAW(SYS_exit_group, 77, 0, 0);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- scheduler
static void unpark(Task *n) { __atomic_store_n(&n->park, 1, __ATOMIC_SEQ_CST); RAW(SYS_futex, &n->park, FUTEX_WAKE_PRIVATE, 1); }
static void wait_token(Task *t) {
  while (!__atomic_load_n(&t->park, __ATOMIC_SEQ_CST)) raw6(SYS_futex, (long)&t->park, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t->park, 0, __ATOMIC_SEQ_CST);
}
static void regrant(Task *t) {
  uint64_t lim = t->qend;
  if (t->in_lib) {
    if (t->limit < lim) lim = t->limit;
    if (t->evi < t->plan.nev) { uint64_t e = t->call_base + t->plan.ev[t->evi].at; if (e < lim) lim = e; }
  }
  uint64_t run_left = R.total_steps < C.run_limit ? C.run_limit - R.total_steps : 1;
  int64_t g = lim > t->steps ? (int64_t)(lim - t->steps) : 1;
  if ((uint64_t)g > run_left) g = run_left;
  t->budget = t->grant = g;
}
static uint64_t draw_quantum(Task *t) {
  if (C.policy == 1 && R.switches < C.max_switches) {
    // log-uniform
    uint64_t r = splitmix(&prng_sched);
    int lo = 63 - __builtin_clzll(C.qmin | 1), hi = 63 - __builtin_clzll(C.qmax | 1);
    int b = lo + (int)(r % (uint64_t)(hi - lo + 1));
    uint64_t base = 1ull << b;
    return base + splitmix(&prng_sched) % base;
  }
  if (C.policy == 2) { if (pct_i < pct_n) { uint64_t p = pct_pts[pct_i]; return p > R.total_steps ? p - R.total_steps : 1; } return 1ull << 60; }
  if (C.policy == 3) {
    for (uint64_t i = t->expl_pos; i < C.expl_n; i++)
      if (C.expl[3 * i] == (uint64_t)t->id && C.expl[3 * i + 1] > t->steps) { t->expl_pos = i; return C.expl[3 * i + 1] - t->steps; }
    t->expl_pos = C.expl_n;
    return 1ull << 60;
  }
  return 1ull << 60;
}
static void mark_timeouts(void) {
  uint64_t n = now_mono();
  for (int i = 0; i < nT; i++)
    if (T[i].state == BLOCKED && T[i].deadline && T[i].deadline <= n) { T[i].state = RUNNABLE; T[i].timed_out = 1; T[i].deadline = 0; R.timeouts++; }
}
static Task *pick(int natural) {
  for (;;) {
    mark_timeouts();
    int ids[MAXT], n = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == RUNNABLE) ids[n++] = i;
    if (n) {
      if (natural && C.policy == 3) {
        int c = -1;
        if (nat_pos < C.nat_n) { int w = (int)C.nat[nat_pos++]; for (int i = 0; i < n; i++) if (ids[i] == w) c = w; }
        return &T[c >= 0 ? c : ids[0]];
      }
      if (C.policy == 2) { int b = ids[0]; for (int i = 1; i < n; i++) if (T[ids[i]].prio > T[b].prio) b = ids[i]; return &T[b]; }
      if (C.policy == 0) return &T[ids[0]];
      return &T[ids[splitmix(&prng_sched) % n]];
    }
    uint64_t best = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED && T[i].deadline && (!best || T[i].deadline < best)) best = T[i].deadline;
    if (!best) {
      char d[512]; int o = 0;
      for (int i = 0; i < nT && o < 400; i++) if (T[i].state == BLOCKED) o += snprintf(d + o, sizeof d - o, "task %d (in_lib=%d) ", i, T[i].in_lib);
      rt_fatal("DEADLOCK", "no runnable task; blocked: %s", d);
    }
    uint64_t nn = now_mono(); if (best > nn) mono_off += best - nn;
  }
}
static void hand_over(Task *from, Task *to, int natural, int wait) {
  if (natural) { R.naturals++; if (nnat < MAXREC) natrec[nnat++] = to->id; }
  else if (to != from) { if (nrec < MAXREC) { rec[nrec][0] = from->id; rec[nrec][1] = from->steps; rec[nrec][2] = to->id; nrec++; } R.preempts++; }
  if (to != from) {
    R.switches++;
    hash_mix(&R.sched_hash, ((uint64_t)from->id << 8 | to->id) ^ ((uint64_t)from->last_guard << 20));
    hash_mix(&R.event_hash, from->steps ^ ((uint64_t)to->id << 56));
  }
  to->qend = to->steps + draw_quantum(to);
  regrant(to);
  if (to != from) { unpark(to); if (wait) wait_token(from); }
}
static void reschedule_natural(Task *t) { settle(t); hand_over(t, pick(1), 1, 1); }

__attribute__((noinline)) static void slow(Task *t) {
  if (!on) { t->budget = t->grant = 1ll << 60; return; }
  int save = errno;
  settle(t);
  if (t->paused) { t->budget = t->grant = 1 << 20; errno = save; return; }
  if (t->in_lib) {
    if (t->steps >= t->limit) rt_fatal("STEP-LIMIT", "call exceeded %lu steps", (unsigned long)(t->limit - t->call_base));
    while (t->evi < t->plan.nev && t->steps >= t->call_base + t->plan.ev[t->evi].at) {
      const RtEvent *e = &t->plan.ev[t->evi++];
      t->st.fired_clock++;
      hash_mix(&R.event_hash, e->kind * 1000003 + (uint64_t)e->arg);
      if (e->kind == 1) mono_off += (uint64_t)e->arg;
      else if (e->kind == 2) real_off += (uint64_t)e->arg;
      else if (e->kind == 3) set_rate((uint64_t)e->arg);
      else if (e->kind == 4) t->qend = t->steps;
    }
  }
  if (R.total_steps >= C.run_limit) rt_fatal("RUN-LIMIT", "run exceeded %lu steps", (unsigned long)C.run_limit);
  if (t->steps >= t->qend) {
    if (C.policy == 2) { if (pct_i < pct_n && R.total_steps >= pct_pts[pct_i]) { pct_i++; t->prio = -pct_i; } hand_over(t, pick(0), 0, 1); }
    else if (C.policy == 3) {
      Task *n = t;
      if (t->expl_pos < C.expl_n) { int w = (int)C.expl[3 * t->expl_pos + 2]; t->expl_pos++; mark_timeouts(); if (w < nT && T[w].state == RUNNABLE) n = &T[w]; }
      hand_over(t, n, 0, 1);
    } else hand_over(t, pick(0), 0, 1);
  } else regrant(t);
  errno = save;
}
static inline void point(uint32_t w) {
  Task *t = me;
  if (!t || t->paused) return;
  t->budget -= w;
  if (t->budget <= 0) slow(t);
}
// An atomic access or a blocking operation: policy 4 switches here, one time in qmax, and nowhere else.
static inline void point_sync(uint32_t w) {
  Task *t = me;
  if (!t || t->paused) return;
  t->budget -= w;
  if (C.policy == 4 && on && R.switches < C.max_switches && splitmix(&prng_sched) % C.qmax == 0) { settle(t); t->qend = t->steps; slow(t); }
  else if (t->budget <= 0) slow(t);
}

// ---------------------------------------------------------------- bulk memory work
// Copies and fills the library asks for count as work too: one step per 64 bytes. They are not scheduling points.
extern int sim_panicking(void);
extern void *__memmove_chk(void *, const void *, size_t, size_t);
extern void *__memset_chk(void *, int, size_t, size_t);
static inline void bulk(size_t n) {
  Task *t = me;
  if (n >= 512 && t && t->in_lib && !t->paused && on) t->budget -= (int64_t)(n >> 6);
}
void *memmove(void *d, const void *s, size_t n) { bulk(n); return __memmove_chk(d, s, n, (size_t)-1); }
void *memcpy(void *d, const void *s, size_t n) { bulk(n); return __memmove_chk(d, s, n, (size_t)-1); }
void *memset(void *d, int c, size_t n) { bulk(n); return __memset_chk(d, c, n, (size_t)-1); }
#define memset(d, c, n) __memset_chk(d, c, n, (size_t)-1)
#define memcpy(d, s, n) __memmove_chk(d, s, n, (size_t)-1)

// ---------------------------------------------------------------- instrumentation callbacks
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (; a < b; a++) *a = ++nguards; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  Task *t = me;
  if (__builtin_expect(!t, 0)) return;
  uint32_t k = *g;
  if (__builtin_expect(!covmap[k], 0)) covmap[k] = 1;
  if (__builtin_expect(--t->budget <= 0, 0)) { t->last_guard = k; slow(t); }
}
#define AT(N, T_) \
  T_ __tsan_atomic##N##_load(const volatile T_ *a, int o) { point_sync(C.w_atomic); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##N##_store(volatile T_ *a, T_ v, int o) { point_sync(C.w_atomic); __atomic_store_n(a, v, 5); } \
  T_ __tsan_atomic##N##_exchange(volatile T_ *a, T_ v, int o) { point_sync(C.w_atomic); return __atomic_exchange_n(a, v, 5); } \
  T_ __tsan_atomic##N##_fetch_add(volatile T_ *a, T_ v, int o) { point_sync(C.w_atomic); return __atomic_fetch_add(a, v, 5); } \
  T_ __tsan_atomic##N##_fetch_sub(volatile T_ *a, T_ v, int o) { point_sync(C.w_atomic); return __atomic_fetch_sub(a, v, 5); } \
  T_ __tsan_atomic##N##_fetch_and(volatile T_ *a, T_ v, int o) { point_sync(C.w_atomic); return __atomic_fetch_and(a, v, 5); } \
  T_ __tsan_atomic##N##_fetch_or(volatile T_ *a, T_ v, int o) { point_sync(C.w_atomic); return __atomic_fetch_or(a, v, 5); } \
  T_ __tsan_atomic##N##_fetch_xor(volatile T_ *a, T_ v, int o) { point_sync(C.w_atomic); return __atomic_fetch_xor(a, v, 5); } \
  T_ __tsan_atomic##N##_fetch_nand(volatile T_ *a, T_ v, int o) { point_sync(C.w_atomic); return __atomic_fetch_nand(a, v, 5); } \
  T_ __tsan_atomic##N##_compare_exchange_val(volatile T_ *a, T_ c, T_ v, int o, int p) { point_sync(C.w_atomic); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { point_sync(C.w_atomic); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}

// ---------------------------------------------------------------- heap
// One arena at a fixed address, so that addresses are a function of the seed. Size-classed free lists.
#define ARENA_BASE 0x200000000000ull
#define ARENA_SIZE (64ull << 30)
typedef struct Hdr { uint64_t size; uint32_t cls; uint32_t tag; struct Hdr *next; void *base; } Hdr; // 32 bytes before user pointer
#define NCLS 256
static struct { Hdr *head, *tail; } freel[NCLS];
static uint8_t *bump, *arena_end;
static uint32_t heap_lock;
static void hlock(void) { while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) __builtin_ia32_pause(); }
static void hunlock(void) { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }
static int cls_of(uint64_t n, uint64_t *sz) { // 4 classes per power of two, from 64
  if (n <= 64) { *sz = 64; return 0; }
  int b = 63 - __builtin_clzll(n - 1); // 2^b < n <= 2^(b+1)
  uint64_t q = 1ull << (b - 2);
  uint64_t k = (n - 1 - (1ull << b)) / q; // 0..3
  *sz = (1ull << b) + (k + 1) * q;
  return 1 + (b - 6) * 4 + (int)k;
}
static void arena_init(void) {
  void *p = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA_BASE) { static const char m[] = "sim: cannot map arena\n"; RAW(SYS_write, 2, m, sizeof m - 1); RAW(SYS_exit_group, 3, 0, 0); }
  bump = (uint8_t *)p; arena_end = bump + ARENA_SIZE;
}
void *rt_alloc(uint64_t size, uint64_t align, int zero) {
  Task *t = me;
  int lib = t && t->in_lib && !t->paused && on;
  if (lib) {
    point(C.w_alloc);
    t->st.allocs++;
    if (t->plan.fail_alloc_at && (int64_t)size >= t->plan.fail_alloc_min && !(t->plan.fail_alloc_at == 1 && sim_panicking()) && --t->plan.fail_alloc_at == 0) {
      t->st.fired_alloc++; R.fired_fail_alloc++; hash_mix(&R.event_hash, 0xA110C);
      return 0;
    }
    if (t->cid < MAXCALL && (uint64_t)call_live[t->cid] + size > C.mem_limit) rt_fatal("MEM-LIMIT", "call holds %ld bytes and asks for %lu more", (long)call_live[t->cid], (unsigned long)size);
  }
  uint64_t a = align < 16 ? 16 : align;
  uint64_t need = size + sizeof(Hdr) + (a > 16 ? a : 0), sz;
  if (need < size) return 0;
  int c = cls_of(need, &sz);
  hlock();
  if (!bump) arena_init();
  Hdr *h0 = freel[c].head; uint8_t *base; int fresh = 0;
  if (h0) { freel[c].head = h0->next; if (!freel[c].head) freel[c].tail = 0; base = h0->base; }
  else {
    if (sz > (uint64_t)(arena_end - bump)) { hunlock(); if (lib) rt_fatal("MEM-LIMIT", "arena exhausted by a request of %lu bytes", (unsigned long)size); return 0; }
    base = bump; bump += (sz + 15) & ~15ull; fresh = 1;
  }
  hunlock();
  uint8_t *u = base + sizeof(Hdr);
  u = (uint8_t *)(((uintptr_t)u + a - 1) & ~(a - 1));
  Hdr *h = (Hdr *)(u - sizeof(Hdr));
  h->size = size; h->cls = c; h->base = base; h->next = 0; h->tag = 0;
  if (lib) {
    h->tag = (uint32_t)t->cid; lib_live += size;
    if (t->cid < MAXCALL) { int64_t l = (call_live[t->cid] += size); if (l > (int64_t)t->st.peak) t->st.peak = l; }
  }
  if (zero) bulk(size);
  if (zero) { if (!fresh) memset(u, 0, size); }
  else if (C.poison && t && on && size <= (1 << 22)) memset(u, C.poison & 0xff, size);
  return u;
}
void rt_free(void *p) {
  Hdr *h = (Hdr *)((uint8_t *)p - sizeof(Hdr));
  Task *t = me;
  if (t && t->in_lib && !t->paused && on) { point(C.w_alloc); t->st.frees++; }
  if (h->tag) { call_live[h->tag] -= h->size; lib_live -= h->size; h->tag = 0; }
  if (C.poison && on && t && h->size <= (1 << 16)) memset(p, (C.poison ^ 0x5a) & 0xff, h->size);
  int c = h->cls;
  Hdr *b = (Hdr *)h->base; void *base = h->base;
  b->base = base; b->next = 0; b->cls = c;
  hlock();
  if (C.lifo || !freel[c].head) { b->next = freel[c].head; freel[c].head = b; if (!freel[c].tail) freel[c].tail = b; }
  else { freel[c].tail->next = b; freel[c].tail = b; }
  hunlock();
}
uint64_t rt_usable(void *p) { return ((Hdr *)((uint8_t *)p - sizeof(Hdr)))->size; }
int64_t rt_lib_live(void) { return lib_live; }
int64_t rt_call_live(uint64_t cid) { return cid < MAXCALL ? call_live[cid] : 0; }

// ---------------------------------------------------------------- run control (from Rust)
static void on_thread_exit(void *v) {
  Task *t = v;
  if (!on) return;
  settle(t);
  t->state = DONE;
  for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED && T[i].waddr == (const volatile uint32_t *)&t->state) { T[i].state = RUNNABLE; T[i].waddr = 0; }
  me = 0;
  hand_over(t, pick(1), 1, 0);
}
void rt_set_shm(char *fatal, uint64_t cap, uint8_t *cov) { fatal_buf = fatal; fatal_cap = cap; covmap = cov; }
static const uintptr_t *pcs[4096]; static uint32_t pcn[4096], pcm;
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { if (a == b || pcm >= 4096) return; for (uint32_t i = 0; i < pcm; i++) if (pcs[i] == a) return; pcs[pcm] = a; pcn[pcm++] = (uint32_t)((b - a) / 2); }
extern char __executable_start;
// Code offset of guard g (1-based) and whether it is a function entry.
uint64_t rt_guard_pc(uint32_t g, uint32_t *entry) { g--; for (uint32_t i = 0; i < pcm; g -= pcn[i++]) if (g < pcn[i]) { *entry = (uint32_t)(pcs[i][2 * g + 1] & 1); return pcs[i][2 * g] - (uintptr_t)&__executable_start; } *entry = 0; return 0; }
uint32_t rt_guards(void) { return nguards; }
void rt_prepare(void) { // zygote, once
  if (!call_live) call_live = mmap(0, MAXCALL * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!rec) rec = mmap(0, MAXREC * 24, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!natrec) natrec = mmap(0, MAXREC * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void rt_begin(const RtCfg *c) {
  C = *c;
  memset(&R, 0, sizeof R); R.sched_hash = R.event_hash = 0xcbf29ce484222325ull;
  prng_sched = C.sched_seed; prng_entropy = C.entropy; prng_env = C.env_seed;
  rate_ns_per_kstep = C.ns_per_kstep; mono_base = C.mono0; mono_off = 0; real_off = 0; rate_step0 = 0;
  nrec = nnat = nat_pos = 0;
  pct_n = pct_i = 0;
  if (C.policy == 2) {
    pct_n = C.pct_d > 60 ? 60 : C.pct_d;
    for (int i = 0; i < pct_n; i++) pct_pts[i] = splitmix(&prng_sched) % (C.pct_total + 1);
    for (int i = 1; i < pct_n; i++) for (int j = i; j > 0 && pct_pts[j] < pct_pts[j - 1]; j--) { uint64_t x = pct_pts[j]; pct_pts[j] = pct_pts[j - 1]; pct_pts[j - 1] = x; }
  }
  if (!bump) arena_init();
  // the run's heap starts at a fixed place, whatever the parent process allocated before the fork
  bump = (uint8_t *)ARENA_BASE + (ARENA_SIZE / 2); memset(freel, 0, sizeof freel);
  if (C.addr_seed) { uint64_t s = C.addr_seed; bump += (splitmix(&s) % 4096) * 16 + (splitmix(&s) % 512) * 4096; }
  pthread_key_create(&exit_key, on_thread_exit);
  nT = 1; memset(&T[0], 0, sizeof T[0]);
  me = &T[0]; me->state = RUNNABLE; me->th = pthread_self(); me->prio = 1000 + (int)(splitmix(&prng_sched) % 1000);
  on = 1;
  me->qend = draw_quantum(me); regrant(me);
}
void rt_end(RtRun *out) {
  settle(me); R.mono_ns = now_mono() - C.mono0; R.tasks = nT; on = 0; me->budget = me->grant = 1ll << 60;
  *out = R;
}
uint64_t rt_rec(uint64_t **r, uint64_t **n, uint64_t *nn) { *r = &rec[0][0]; *n = natrec; *nn = nnat; return nrec; }
void rt_call_begin(const RtPlan *p, uint64_t limit) {
  Task *t = me; settle(t);
  memset(&t->st, 0, sizeof t->st);
  t->plan = *p; t->evi = 0; t->call_base = t->steps; t->limit = t->steps + (limit ? limit : C.call_limit);
  t->cid = next_cid++; t->st.call_id = t->cid;
  t->st.t0_mono = now_mono(); t->st.gstep0 = R.total_steps;
  t->in_lib = 1; regrant(t);
}
void rt_call_end(RtStats *o) {
  Task *t = me; settle(t);
  t->in_lib = 0;
  t->st.steps = t->steps - t->call_base; t->st.t1_mono = now_mono(); t->st.gstep1 = R.total_steps;
  t->st.live = t->cid < MAXCALL ? call_live[t->cid] : 0;
  *o = t->st; t->plan.nev = 0; t->plan.fail_alloc_at = 0; t->plan.stderr_fault_at = 0;
  t->evi = 0; regrant(t);
}
void rt_pause(void) { if (me) me->paused++; }
void rt_resume(void) { if (me) me->paused--; }
int rt_in_lib(void) { return on && me && me->in_lib && !me->paused; }
uint64_t rt_log_point(void) { point(C.w_log); return me ? ++me->st.logs : 0; }
int rt_task(void) { return me ? me->id : -1; }
uint64_t rt_gsteps(void) { if (me) settle(me); return R.total_steps; }
uint64_t rt_now(void) { return now_mono(); }
void rt_advance(uint64_t ns) { mono_off += ns; }
void rt_yield(void) { if (on && me) { R.yields++; reschedule_natural(me); } }
void rt_event(uint64_t v) { hash_mix(&R.event_hash, v); }

// ---------------------------------------------------------------- interposed libc
typedef struct { void *(*fn)(void *); void *arg; Task *t; } Boot;
static void *trampoline(void *a) {
  Boot b = *(Boot *)a; munmap(a, 4096);
  me = b.t;
  pthread_setspecific(exit_key, b.t);
  wait_token(b.t);
  return b.fn(b.arg);
}
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  if (!on || !me) return real(th, at, fn, arg);
  // a fresh slot while there is one, then that of a finished thread; its step count goes on, so that recorded switches stay unambiguous
  int slot = nT;
  if (nT >= MAXT) { for (slot = 0; slot < MAXT && T[slot].state != DONE; slot++); if (slot >= MAXT) return EAGAIN; }
  Task *t = &T[slot]; uint64_t steps = slot < nT ? t->steps : 0, epos = slot < nT ? t->expl_pos : 0; memset(t, 0, sizeof *t);
  t->steps = steps; t->expl_pos = epos;
  t->id = slot; t->state = RUNNABLE; t->in_lib = me->in_lib; t->cid = me->cid; t->limit = ~0ull; t->paused = 0;
  t->prio = 1000 + (int)(splitmix(&prng_sched) % 1000);
  if (t->in_lib) R.spawned++;
  Boot *b = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  b->fn = fn; b->arg = arg; b->t = t;
  if (slot == nT) nT++;
  int r = real(th, at, trampoline, b);
  if (r) { t->state = DONE; return r; }
  t->th = *th;
  point_sync(C.w_sync);
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  static int (*real)(pthread_t, void **);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
  if (on && me) {
    for (int i = 0; i < nT; i++)
      if (T[i].th == th && T[i].state != FREE) {
        while (T[i].state != DONE && T[i].th == th) { settle(me); me->state = BLOCKED; me->waddr = (const volatile uint32_t *)&T[i].state; me->deadline = 0; reschedule_natural(me); }
      }
  }
  return real(th, ret);
}
static uint64_t ts_ns(const struct timespec *ts) { return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
static long sim_futex_wait(const volatile uint32_t *a, uint32_t v, uint64_t deadline, uint32_t bits) {
  point_sync(C.w_sync);
  if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) { errno = EAGAIN; return -1; }
  R.futex_waits++;
  if (C.spurious && splitmix(&prng_sched) % C.spurious == 0) { R.spurious++; reschedule_natural(me); errno = EINTR; return -1; }
  Task *t = me;
  t->waddr = a; t->wbits = bits; t->deadline = deadline; t->timed_out = 0; t->state = BLOCKED;
  reschedule_natural(t);
  t->waddr = 0; t->deadline = 0;
  if (t->timed_out) { t->timed_out = 0; errno = ETIMEDOUT; return -1; }
  return 0;
}
static long sim_futex_wake(const volatile uint32_t *a, int n, uint32_t bits) {
  int w = 0; R.futex_wakes++;
  while (w < n) {
    int ids[MAXT], k = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED && T[i].waddr == a && (T[i].wbits & bits)) ids[k++] = i;
    if (!k) break;
    int c = ids[C.policy == 0 || C.policy == 3 ? 0 : splitmix(&prng_sched) % k];
    T[c].state = RUNNABLE; T[c].waddr = 0; w++;
  }
  point_sync(C.w_sync);
  return w;
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (on && me) {
    if (n == SYS_futex) {
      int op = (int)b & 127;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        uint64_t dl = 0;
        if (d) {
          uint64_t t = ts_ns((struct timespec *)d);
          if (op == FUTEX_WAIT) dl = now_mono() + t;
          else if ((int)b & FUTEX_CLOCK_REALTIME) { uint64_t rn = C.real0 + (now_mono() - C.mono0) + real_off; dl = t > rn ? now_mono() + (t - rn) : now_mono(); }
          else dl = t;
          if (!dl) dl = 1;
        }
        return sim_futex_wait((const volatile uint32_t *)a, (uint32_t)c, dl, op == FUTEX_WAIT ? ~0u : (uint32_t)f);
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return sim_futex_wake((const volatile uint32_t *)a, (int)c, op == FUTEX_WAKE ? ~0u : (uint32_t)f);
    }
    if (n == SYS_getrandom) { uint8_t *p = (uint8_t *)a; for (long i = 0; i < b; i++) p[i] = (uint8_t)(splitmix(&prng_entropy) >> 32); me->st.getrandom_calls++; return b; }
    if (n == SYS_gettid && me->in_lib) return 1000 + me->id;
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (on && me) { uint8_t *p = b; for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(splitmix(&prng_entropy) >> 32); me->st.getrandom_calls++; return (ssize_t)n; }
  long r = RAW(SYS_getrandom, b, n, fl); if (r < 0) { errno = (int)-r; return -1; } return r;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (on && me && !me->paused) {
    point_sync(C.w_sync);
    uint64_t n = now_mono();
    me->st.clock_reads++;
    hash_mix(&R.event_hash, n);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) n = C.real0 + (n - C.mono0) + real_off;
    else { if (!me->st.clk_first) me->st.clk_first = n; me->st.clk_last = n; }
    ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0;
  }
  long r = RAW(SYS_clock_gettime, id, ts, 0); if (r < 0) { errno = (int)-r; return -1; } return 0;
}
int sched_yield(void) { if (on && me) { R.yields++; reschedule_natural(me); return 0; } RAW(SYS_sched_yield, 0, 0, 0); return 0; }
static void sim_sleep(uint64_t ns) { Task *t = me; settle(t); t->deadline = now_mono() + (ns ? ns : 1); t->waddr = (const volatile uint32_t *)&t->deadline; t->state = BLOCKED; reschedule_natural(t); t->waddr = 0; t->timed_out = 0; t->deadline = 0; }
int nanosleep(const struct timespec *q, struct timespec *m) { if (on && me) { sim_sleep(ts_ns(q)); return 0; } long r = RAW(SYS_nanosleep, q, m, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *q, struct timespec *m) {
  if (on && me) { uint64_t n = ts_ns(q); if (fl & TIMER_ABSTIME) { uint64_t w = now_mono(); n = n > w ? n - w : 0; } sim_sleep(n); return 0; }
  return (int)-raw6(SYS_clock_nanosleep, id, fl, (long)q, (long)m, 0, 0);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (on && me && (fd == 2 || fd == 1) && me->in_lib && !me->paused) {
    Task *t = me; point_sync(C.w_sync); t->st.stderr_writes++;
    if (t->plan.stderr_fault_at && (int64_t)t->st.stderr_writes >= t->plan.stderr_fault_at) {
      int64_t k = t->plan.stderr_errno;
      if (k == -1) { t->plan.stderr_fault_at = 0; t->st.fired_stderr++; return n > 1 ? (ssize_t)(n / 2) : (ssize_t)n; }
      if (k == -2) { t->st.fired_stderr++; errno = EPIPE; return -1; }
      t->plan.stderr_fault_at = 0; t->st.fired_stderr++; errno = (int)k; return -1;
    }
    t->st.stderr_bytes += n; return (ssize_t)n;
  }
  long r = RAW(SYS_write, fd, b, n); if (r < 0) { errno = (int)-r; return -1; } return r;
}
static char *(*real_getenv)(const char *);
char *getenv(const char *name) {
  if (on && me && me->in_lib && !me->paused && strncmp(name, "RUST_", 5)) {
    me->st.env_reads++;
    if (!C.fake_env) return 0;
    static char buf[8][16]; static int bi;
    uint64_t h = prng_env; for (const char *p = name; *p; p++) hash_mix(&h, (uint8_t)*p);
    uint64_t v = splitmix(&h);
    if (v % 3 == 0) return 0;
    char *o = buf[bi++ & 7]; snprintf(o, 16, "%lu", (unsigned long)(v % 3 == 1 ? 1 : (v >> 8) % 100)); return o;
  }
  if (!real_getenv) real_getenv = dlsym(RTLD_NEXT, "getenv");
  return real_getenv ? real_getenv(name) : 0;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  if (on && me && me->in_lib) { memset(s, 0, n); for (uint32_t i = 0; i < C.cpus && i < n * 8; i++) CPU_SET(i, s); return 0; }
  long r = RAW(SYS_sched_getaffinity, p, n, s); if (r < 0) { errno = (int)-r; return -1; }
  memset((char *)s + r, 0, n - r); return 0;
}
pid_t getpid(void) { if (on && me && me->in_lib) return 2 + (pid_t)(C.env_seed % 30000); return (pid_t)RAW(SYS_getpid, 0, 0, 0); }

// Files are part of the environment: the library has no business reading any. In the reference environment there are
// none; in a drawn one every path may hold something.
static int sim_open(const char *path) {
  me->st.env_reads++;
  uint64_t h = prng_env; for (const char *p = path; *p; p++) hash_mix(&h, (uint8_t)*p);
  uint64_t v = splitmix(&h);
  if (!C.fake_env || v % 4 == 0 || strstr(path, "cgroup")) { errno = v % 8 == 4 ? EACCES : ENOENT; return -1; }
  char b[256]; uint64_t w = splitmix(&h);
  int n = strstr(path, "meminfo") ? snprintf(b, sizeof b, "MemTotal:       %lu kB\nMemFree:        %lu kB\nMemAvailable:   %lu kB\n", (unsigned long)(1000000 + w % 64000000), (unsigned long)(1000 + w % 900000), (unsigned long)(2000 + w % 900000))
        : v % 4 == 1 ? snprintf(b, sizeof b, "%lu\n", (unsigned long)(w % 1000)) : v % 4 == 2 ? snprintf(b, sizeof b, "%lu.%02lu 0.50 0.25 1/200 %lu\n", (unsigned long)(w % 30), (unsigned long)(w >> 8) % 100, (unsigned long)(w >> 16) % 30000)
        : snprintf(b, sizeof b, "1\n");
  long fd = RAW(SYS_memfd_create, "sim", 0, 0);
  if (fd < 0) { errno = EMFILE; return -1; }
  RAW(SYS_write, fd, b, n); RAW(SYS_lseek, fd, 0, 0);
  return (int)fd;
}
static int real_open(int dir, const char *path, int fl, int mode) { long r = raw6(SYS_openat, dir, (long)path, fl, mode, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return (int)r; }
#define IN_LIB (on && me && me->in_lib && !me->paused)
#define OPENBODY(dir) va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); if (IN_LIB) return sim_open(path); return real_open(dir, path, fl, mode);
int open(const char *path, int fl, ...) { OPENBODY(-100) }
int open64(const char *path, int fl, ...) { OPENBODY(-100) }
int openat(int dir, const char *path, int fl, ...) { OPENBODY(dir) }
int openat64(int dir, const char *path, int fl, ...) { OPENBODY(dir) }
char *getcwd(char *b, size_t n) {
  if (IN_LIB) { me->st.env_reads++; snprintf(b, n, "/sim/%lu", (unsigned long)(C.fake_env ? C.env_seed % 100 : 0)); return b; }
  long r = RAW(SYS_getcwd, b, n, 0); if (r < 0) { errno = (int)-r; return 0; } return b;
}
