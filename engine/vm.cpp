// mcvm: explicit-state model checker for compiled C++ code.
//
//   mcvm HARNESS.so [options] [name=value ...]
//
// The harness (and the code under test, compiled into it) runs on fibers with
// its own stacks.  Every access to shared memory (reported by the compiler's
// -fsanitize=thread callbacks, which this program implements), every wrapped
// pthread/time call and every mc_choose() is a transition; the explorer does a
// depth-first search over all of them, with exact state matching (128-bit
// fingerprints of every mutable byte: .data/.bss, stacks, virtual clock,
// fiber control) and undo logs.  No sampling anywhere.
#include "mc.h"
#include <algorithm>
#include <chrono>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef __int128 i128;

enum { MAXF = 8 };
enum { STK = 64 * 1024 };
static const uintptr_t STKBASE = 0x7d0000000000ull;

enum Op : int { O_NONE, O_START, O_ACC, O_POINT, O_YIELD, O_CHOOSE, O_LOCK, O_COND, O_SLEEP, O_JOIN, O_DONE, O_FAIL, O_PRUNE };
static const char *opname[] = {"-", "start", "access", "point", "yield", "choose", "lock", "condwait", "sleep", "join", "done", "FAIL", "PRUNE"};

struct Fiber {
  void *sp;
  u64 op;       // Op
  u64 addr;     // access / mutex / cond / join target
  u64 info;     // size | write<<8, or n of a choice
  u64 deadline; // ns, ~0 = none
  u64 wake;     // condition signalled
  u64 ret;      // value handed back
  u64 opdepth, opcount;
  u64 daemon;
  u64 fn, arg;
  u64 burst;    // accesses are not scheduling points
  u64 pthr;     // started through pthread_create
};
struct alignas(64) Glob {
  u64 now, tick, tickchoice, spurious, late;
  u64 nf;
  u64 last, preempt; // only used when preemption-bounded
  Fiber f[MAXF];
};
static Glob G __attribute__((aligned(4096)));
static int cur = -1;
// --tso: plain stores go to the fiber's store buffer and reach memory later, in order, as transitions
// of their own; a fiber sees its own stores at once; locked instructions, sequentially consistent
// stores, fences and library calls that synchronise empty the buffer first
enum { SBN = 12, SBV = 64 };
struct SBEnt { u64 a, n; u8 val[SBV], saved[SBV]; }; // saved: what the entry hides while its fiber runs, otherwise 0
struct alignas(64) SB { u64 n; SBEnt e[SBN]; };
static SB B[MAXF] __attribute__((aligned(4096)));
static long opt_tso = 0;
static struct { u64 a, n, pc; u8 old[SBV]; } sb_pend; // the store the running fiber is about to execute
static void sb_drain(int i) { sb_pend.n = 0; if (B[i].n) memset(&B[i], 0, sizeof B[i]); } // the running fiber: its view becomes the memory
static void sb_commit(int i) {
  if (!sb_pend.n) return;
  if (B[i].n >= SBN) { // full: the oldest store reaches memory now
    memmove(&B[i].e[0], &B[i].e[1], sizeof(SBEnt) * (SBN - 1));
    B[i].n--;
  }
  SBEnt &e = B[i].e[B[i].n++];
  e.a = sb_pend.a; e.n = sb_pend.n;
  memcpy(e.val, (void *)e.a, e.n); memcpy(e.saved, sb_pend.old, e.n);
  sb_pend.n = 0;
}
static void sb_out(int i) { // before the fiber stops: memory is what everybody sees
  sb_commit(i);
  for (int k = (int)B[i].n - 1; k >= 0; k--) { SBEnt &e = B[i].e[k]; memcpy((void *)e.a, e.saved, e.n); memset(e.saved, 0, SBV); }
}
static void sb_in(int i) { // it goes on: memory is what it sees
  for (u64 k = 0; k < B[i].n; k++) { SBEnt &e = B[i].e[k]; memcpy(e.saved, (void *)e.a, e.n); memcpy((void *)e.a, e.val, e.n); }
}
static void sb_flush(int i) { // the oldest entry reaches memory
  SB &b = B[i];
  memcpy((void *)b.e[0].a, b.e[0].val, b.e[0].n);
  memmove(&b.e[0], &b.e[1], sizeof(SBEnt) * (b.n - 1));
  memset(&b.e[b.n - 1], 0, sizeof(SBEnt));
  b.n--;
}
static void *vm_sp;
static const char *dbg_tag[MAXF];
static void *dbg_pc[MAXF];
static std::string fname[MAXF];

// ---------------------------------------------------------------- regions
struct Region { uintptr_t lo, hi; int stk; u64 wbase; };
static std::vector<Region> regs;
static std::vector<u64> shadow, initial;
static uintptr_t so_lo[8], so_hi[8];
static int nso;
static std::vector<std::pair<uintptr_t, uintptr_t>> priv, shrd;
static uintptr_t stk_low[MAXF];
static u64 H1, H2;

static inline u64 fmix(u64 x) {
  x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32;
  return x;
}
static inline void hword(u64 idx, u64 v, u64 &a, u64 &b) {
  if (!v) { a = b = 0; return; }
  a = fmix(v + idx * 0x9e3779b97f4a7c15ull + 0x1234567);
  b = fmix((v ^ 0xa5a5a5a5deadbeefull) * 0xff51afd7ed558ccdull + idx * 0xc4ceb9fe1a85ec53ull);
}

// ---------------------------------------------------------------- options
static std::map<std::string, long> params;
static long opt_preempt = -1, opt_max_states = 40000000, opt_graph = 0, opt_solo = 0, opt_solo_max = 4000, opt_keys = 40;
static double opt_max_sec = 1e9;
static std::string opt_out, opt_replay, opt_vdir;
static int opt_verbose = 0;

// ---------------------------------------------------------------- results
struct Viol { std::string key, msg; std::vector<u16> path; long count; std::string steps; bool reproduced; };
static std::map<std::string, Viol> viols;
static std::map<std::string, long> stats;
static std::set<std::string> outcomes;
static std::vector<std::string> samples;
static u64 n_states, n_trans, n_term, n_pruned, n_solo, n_maxdepth, n_revisit;
static bool capped = false;
static std::string cap_reason;
static std::vector<u16> path;
static bool quiet_record = false; // replaying
static std::string fail_key, fail_msg;
static sigjmp_buf crash_jmp;
static volatile sig_atomic_t in_code = 0;
static volatile u64 stepno = 0, wd_last = 0;
static volatile int wd_count = 0;

static void (*h_setup)(), (*h_final)(), (*h_invariant)();
static const char *(*h_stuck)(int);

// ---------------------------------------------------------------- fibers
extern "C" void mc_switch(void **save, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
.globl mc_tramp
.type mc_tramp,@function
mc_tramp:
  movq %r12, %rdi
  movq %r13, %rax
  call *%rax
  call mc_fiber_done
  hlt
.size mc_tramp,.-mc_tramp
)");
extern "C" void mc_tramp();
static void to_vm() {
  int me = cur;
  if (opt_tso) sb_out(me);
  mc_switch(&G.f[me].sp, vm_sp);
  if (opt_tso) sb_in(me);
}
extern "C" void mc_fiber_done() {
  G.f[cur].op = O_DONE;
  G.f[cur].addr = G.f[cur].info = 0;
  to_vm();
  abort();
}
static uintptr_t stk_hi(int f) { return STKBASE + (u64)(f + 1) * STK * 2; }
static uintptr_t stk_lo(int f) { return stk_hi(f) - STK; }

static inline int yield_op(int op, u64 addr, u64 info, u64 deadline, const char *tag, void *pc) {
  Fiber &f = G.f[cur];
  f.op = op; f.addr = addr; f.info = info; f.deadline = deadline; f.wake = 0; f.ret = 0;
  dbg_tag[cur] = tag; dbg_pc[cur] = pc;
  to_vm();
  Fiber &g = G.f[cur];
  int r = (int)g.ret;
  if (opt_tso && op != O_ACC && op != O_CHOOSE && op != O_YIELD && !(op == O_POINT && !strcmp(tag, "clock_gettime"))) sb_drain(cur);
  g.op = O_NONE; g.addr = g.info = g.ret = 0; g.deadline = ~0ull;
  return r;
}

extern "C" {
int mc_spawn(void (*fn)(void *), void *arg, const char *name) {
  if (G.nf >= MAXF) { fprintf(stderr, "too many fibers\n"); _exit(3); }
  int i = G.nf++;
  Fiber &f = G.f[i];
  memset(&f, 0, sizeof f);
  f.fn = (u64)fn; f.arg = (u64)arg; f.op = O_START; f.deadline = ~0ull;
  u64 *s = (u64 *)stk_hi(i);
  s -= 2;              // alignment: at call in tramp rsp must be 16-aligned
  *--s = (u64)mc_tramp; // ret
  *--s = 0;            // rbp
  *--s = 0;            // rbx
  *--s = (u64)arg;     // r12
  *--s = (u64)fn;      // r13
  *--s = 0; *--s = 0;  // r14 r15
  f.sp = s;
  uintptr_t al = (uintptr_t)s & ~63ull;
  if (al < stk_low[i]) stk_low[i] = al; // its first frame is part of the state
  fname[i] = name ? name : "f";
  dbg_tag[i] = "start";
  return i;
}
int mc_self() { return cur; }
int mc_finished(int i) { return i >= 0 && (u64)i < G.nf && G.f[i].op == O_DONE; }
void mc_daemon(int i) { G.f[i].daemon = 1; }
int mc_choose(int n, const char *tag) {
  if (cur < 0 || n <= 1) return 0;
  if (n > 128) { // a transition has 8 bits for the alternative
    int hi = yield_op(O_CHOOSE, 0, (n + 127) / 128, ~0ull, tag, __builtin_return_address(0));
    return hi * 128 + yield_op(O_CHOOSE, 0, n - hi * 128 < 128 ? n - hi * 128 : 128, ~0ull, tag, __builtin_return_address(0));
  }
  return yield_op(O_CHOOSE, 0, n, ~0ull, tag, __builtin_return_address(0));
}
void mc_point(const char *tag) { if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, tag, __builtin_return_address(0)); }
void mc_join(int t) { if (cur >= 0) yield_op(O_JOIN, t + 1, 0, ~0ull, "join", __builtin_return_address(0)); }
void mc_fail(const char *key, const char *fmt, ...) {
  char b[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  fail_key = key; fail_msg = b;
  if (cur < 0) siglongjmp(crash_jmp, 2);
  G.f[cur].op = O_FAIL;
  to_vm();
  abort();
}
void mc_prune() {
  if (cur < 0) siglongjmp(crash_jmp, 3);
  G.f[cur].op = O_PRUNE;
  to_vm();
  abort();
}
void mc_outcome(const char *fmt, ...) {
  char b[512];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (outcomes.size() < 200000) outcomes.insert(b);
}
void mc_sample(const char *fmt, ...) {
  if (samples.size() >= 6) return;
  char b[1024];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (auto &s : samples) if (s == b) return;
  samples.push_back(b);
}
void mc_stat(const char *name, long add) { if (!quiet_record) stats[name] += add; }
void mc_private(const void *p, size_t n) { priv.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
void mc_shared(const void *p, size_t n) { shrd.push_back({(uintptr_t)p, (uintptr_t)p + n}); }
long mc_param(const char *name, long def) { auto it = params.find(name); return it == params.end() ? def : it->second; }
void mc_burst(int on) { if (cur >= 0) { G.f[cur].burst = on; if (opt_tso) { sb_commit(cur); sb_drain(cur); } } }
void mc_op_begin() { if (cur >= 0) G.f[cur].opdepth++; }
void mc_op_end() { if (cur >= 0) { G.f[cur].opdepth--; G.f[cur].opcount++; } }
uint64_t mc_now() { return G.now; }
void mc_clock(uint64_t start, uint64_t tick) { G.now = start; G.tick = tick; }
void mc_clock_choice(int on) { G.tickchoice = on; }
void mc_budget(int spurious, int late) { G.spurious = spurious; G.late = late; }
void mc_sleep_ns(uint64_t ns) { if (cur >= 0) yield_op(O_SLEEP, 0, 0, G.now + ns, "sleep", __builtin_return_address(0)); }
}

// ---------------------------------------------------------------- memory accesses
static inline bool tracked(uintptr_t a) {
  for (int i = 0; i < nso; i++) if (a >= so_lo[i] && a < so_hi[i]) return true;
  return a - STKBASE < (u64)STK * 2 * (MAXF + 1);
}
enum { A_READ, A_WRITE, A_LOCKED };
static inline void access_(uintptr_t a, size_t n, int w, void *pc) {
  if (cur < 0 || G.f[cur].burst) return;
  u64 defer = 0, defer_n = 0;
  if (opt_tso && sb_pend.n) {
    // an aggregate copy announces its store, then its load, then does both: that store is still to come
    if (w == A_READ && n == sb_pend.n && (u64)pc - sb_pend.pc < 64 && !memcmp((void *)sb_pend.a, sb_pend.old, n)) { defer = sb_pend.a; defer_n = n; sb_pend.n = 0; }
    else sb_commit(cur);
  }
  struct Again { u64 a, n, pc; ~Again() { if (n) { sb_pend.a = a; sb_pend.n = n; sb_pend.pc = pc - 64; memcpy(sb_pend.old, (void *)a, n); } } } again{defer, defer_n, (u64)pc};
  if (a - stk_lo(cur) < STK) {
    if (shrd.empty()) return;
    bool s = false;
    for (auto &r : shrd) if (a < r.second && a + n > r.first) s = true;
    if (!s) return;
  } else if (!tracked(a)) return;
  for (auto &r : priv) if (a >= r.first && a + n <= r.second) return;
  yield_op(O_ACC, a, n | ((w != A_READ) << 16), ~0ull, w ? "write" : "read", pc);
  if (opt_tso && w == A_LOCKED) sb_drain(cur);
  if (opt_tso && w == A_WRITE) {
    if (n > SBV) { sb_drain(cur); return; }
    sb_pend.a = a; sb_pend.n = n; sb_pend.pc = (u64)pc; memcpy(sb_pend.old, (void *)a, n);
  }
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void *p) { access_((uintptr_t)p, N, 0, RA); } \
  void __tsan_write##N(void *p) { access_((uintptr_t)p, N, 1, RA); } \
  void __tsan_unaligned_read##N(void *p) { access_((uintptr_t)p, N, 0, RA); } \
  void __tsan_unaligned_write##N(void *p) { access_((uintptr_t)p, N, 1, RA); } \
  void __tsan_volatile_read##N(void *p) { access_((uintptr_t)p, N, 0, RA); } \
  void __tsan_volatile_write##N(void *p) { access_((uintptr_t)p, N, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { access_((uintptr_t)p, 8, 1, RA); }
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_read_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 0, RA); }
void __tsan_write_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 1, RA); }
#define ATOM(W, T) \
  T __tsan_atomic##W##_load(const volatile T *a, int) { access_((uintptr_t)a, sizeof(T), 0, RA); return *a; } \
  void __tsan_atomic##W##_store(volatile T *a, T v, int mo) { access_((uintptr_t)a, sizeof(T), mo == __ATOMIC_SEQ_CST ? A_LOCKED : A_WRITE, RA); *a = v; } \
  T __tsan_atomic##W##_exchange(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; *a = v; return o; } \
  T __tsan_atomic##W##_fetch_add(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##W##_fetch_sub(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##W##_fetch_and(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##W##_fetch_or(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##W##_fetch_xor(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##W##_fetch_nand(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##W##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
    access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##W##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { \
    access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##W##_compare_exchange_val(volatile T *a, T c, T v, int, int) { \
    access_((uintptr_t)a, sizeof(T), A_LOCKED, RA); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64) ATOM(128, i128)
void __tsan_atomic_thread_fence(int mo) { if (opt_tso && cur >= 0 && mo == __ATOMIC_SEQ_CST) { yield_op(O_POINT, 0, 0, ~0ull, "fence", RA); } }
void __tsan_atomic_signal_fence(int) {}

void *mcw_memcpy(void *d, const void *s, size_t n) {
  access_((uintptr_t)s, n, 0, RA); access_((uintptr_t)d, n, 1, RA); return memcpy(d, s, n);
}
void *mcw_memmove(void *d, const void *s, size_t n) {
  access_((uintptr_t)s, n, 0, RA); access_((uintptr_t)d, n, 1, RA); return memmove(d, s, n);
}
void *mcw_memset(void *d, int c, size_t n) { access_((uintptr_t)d, n, 1, RA); return memset(d, c, n); }

// ------------------------------------------------------------- threads, time
static u64 ts2ns(const struct timespec *t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
int mcw_sched_yield() { if (cur >= 0) yield_op(O_YIELD, 0, 0, ~0ull, "sched_yield", RA); return 0; }
int mcw_pthread_yield() { if (cur >= 0) yield_op(O_YIELD, 0, 0, ~0ull, "sched_yield", RA); return 0; }
// the clocks of the system: MONOTONIC (with RAW, BOOTTIME and the CPU time clocks) counts from
// another origin than REALTIME unless mono=0 asks for the same, the COARSE ones lag up to 4 ms behind
static u64 clkoff() { return !mc_param("mono", 1) ? 0 : G.now >= 1000000000000000000ull ? -1600000000000000000ull : 500000000000000ull; }
static bool coarse(clockid_t c) { return c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC_COARSE; }
static u64 clkread(clockid_t c) {
  u64 v = G.now + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? 0 : clkoff());
  return coarse(c) ? v - v % 4000000 : v;
}
static u64 clkabs(clockid_t c, u64 t) { // a deadline on that clock
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) return t;
  i128 r = (i128)t - (int64_t)clkoff();
  return r < 0 ? 0 : (u64)r;
}
int mcw_clock_gettime(clockid_t id, struct timespec *ts) {
  if (cur >= 0 && G.f[cur].burst) G.now += G.tick;
  else if (cur >= 0) {
    if (G.tickchoice) { if (yield_op(O_CHOOSE, 0, 2, ~0ull, "clock-advances?", RA) == 0) G.now += G.tick; }
    else if (G.tick) { yield_op(O_POINT, 0, 0, ~0ull, "clock_gettime", RA); G.now += G.tick; }
    else yield_op(O_POINT, 0, 0, ~0ull, "clock_gettime", RA);
  }
  u64 v = clkread(id);
  ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int mcw_gettimeofday(struct timeval *tv, void *) {
  struct timespec t; mcw_clock_gettime(0, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t mcw_time(time_t *p) { struct timespec t; mcw_clock_gettime(0, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
long mcw__ZNSt6chrono3_V212system_clock3nowEv() { struct timespec t; mcw_clock_gettime(0, &t); return ts2ns(&t); }
long mcw__ZNSt6chrono3_V212steady_clock3nowEv() { struct timespec t; mcw_clock_gettime(CLOCK_MONOTONIC, &t); return ts2ns(&t); }
int mcw_nanosleep(const struct timespec *r, struct timespec *rem) {
  if (cur >= 0) yield_op(O_SLEEP, 0, 0, G.now + ts2ns(r), "nanosleep", RA);
  if (rem) rem->tv_sec = rem->tv_nsec = 0;
  return 0;
}
int mcw_clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *) {
  if (cur >= 0) yield_op(O_SLEEP, 0, 0, fl == TIMER_ABSTIME ? clkabs(id, ts2ns(r)) : G.now + ts2ns(r), "clock_nanosleep", RA);
  return 0;
}
int mcw_usleep(useconds_t u) { if (cur >= 0) yield_op(O_SLEEP, 0, 0, G.now + u * 1000ull, "usleep", RA); return 0; }
unsigned mcw_sleep(unsigned u) { if (cur >= 0) yield_op(O_SLEEP, 0, 0, G.now + u * 1000000000ull, "sleep", RA); return 0; }

static void pth_entry(void *a);
// scheduling parameters of a thread: policy << 8 | priority << 16 in pthr; they have no effect on the
// exploration (every runnable thread may always go next), a harness can ask for them
static u64 sched_bits(int policy, int prio) { return (u64)(unsigned char)policy << 8 | (u64)(unsigned short)prio << 16; }
int mcw_pthread_attr_init(pthread_attr_t *a) {
  int r = pthread_attr_init(a);
  if (!r && mc_param("explicit", 0)) pthread_attr_setinheritsched(a, PTHREAD_EXPLICIT_SCHED); // the default of some systems (NuttX)
  return r;
}
int mcw_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "pthread_create", RA);
  if (mc_param("failcreate", 0)) return (int)mc_param("failcreate", 0);
  u64 sch = cur >= 0 ? G.f[cur].pthr & ~0xffull : 0; // inherited
  int inh = PTHREAD_INHERIT_SCHED, pol = 0;
  struct sched_param sp = {0};
  if (at && !pthread_attr_getinheritsched(at, &inh) && inh == PTHREAD_EXPLICIT_SCHED) {
    pthread_attr_getschedpolicy(at, &pol);
    pthread_attr_getschedparam(at, &sp);
    sch = sched_bits(pol, sp.sched_priority);
  }
  int i = mc_spawn((void (*)(void *))fn, arg, "thread");
  G.f[i].pthr = 1 | sch;
  // POSIX: the new thread may run before *t is stored; model the store first (glibc does)
  *t = (pthread_t)(i + 1);
  return 0;
}
int mcw_pthread_join(pthread_t t, void **ret) {
  if (t == 0 || t > G.nf || !(G.f[t - 1].pthr & 1)) mc_fail("crash-join", "pthread_join of %#lx, which is no thread that was created", (long)t);
  if (cur >= 0) yield_op(O_JOIN, t, 0, ~0ull, "pthread_join", RA);
  if (ret) *ret = NULL;
  return 0;
}
int mcw_pthread_setschedparam(pthread_t t, int pol, const struct sched_param *sp) {
  if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "pthread_setschedparam", RA);
  if (t == 0 || t > G.nf) return ESRCH;
  if (pol != SCHED_OTHER && pol != SCHED_FIFO && pol != SCHED_RR) return EINVAL;
  if (pol == SCHED_OTHER ? sp->sched_priority != 0 : sp->sched_priority < 1 || sp->sched_priority > 99) return EINVAL;
  G.f[t - 1].pthr = (G.f[t - 1].pthr & 0xff) | sched_bits(pol, sp->sched_priority);
  return 0;
}
int mcw_pthread_getschedparam(pthread_t t, int *pol, struct sched_param *sp) {
  if (t == 0 || t > G.nf) return ESRCH;
  *pol = G.f[t - 1].pthr >> 8 & 0xff;
  sp->sched_priority = G.f[t - 1].pthr >> 16 & 0xffff;
  return 0;
}
int mcw_pthread_setschedprio(pthread_t t, int prio) {
  struct sched_param sp = {prio};
  if (t == 0 || t > G.nf) return ESRCH;
  return mcw_pthread_setschedparam(t, G.f[t - 1].pthr >> 8 & 0xff, &sp);
}
void mcw_pthread_exit(void *) { mc_fiber_done(); abort(); }
int mcw_pthread_detach(pthread_t) { return 0; }
pthread_t mcw_pthread_self() { return (pthread_t)(cur + 1); }
int mcw_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
  if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "mutex_init", RA);
  memset(m, 0, sizeof *m); return 0;
}
int mcw_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int mcw_pthread_mutex_lock(pthread_mutex_t *m) {
  if (cur < 0) return 0;
  yield_op(O_LOCK, (u64)m, 0, ~0ull, "mutex_lock", RA);
  *(int *)m = cur + 1; return 0;
}
int mcw_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (cur < 0) return 0;
  yield_op(O_POINT, 0, 0, ~0ull, "mutex_trylock", RA);
  if (*(int *)m) return EBUSY;
  *(int *)m = cur + 1; return 0;
}
int mcw_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (cur < 0) return 0;
  yield_op(O_POINT, 0, 0, ~0ull, "mutex_unlock", RA);
  *(int *)m = 0; return 0;
}
int mcw_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "cond_init", RA);
  clockid_t id = CLOCK_REALTIME;
  if (a) pthread_condattr_getclock(a, &id);
  memset(c, 0, sizeof *c); *(int *)c = id; return 0;
}
int mcw_pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, u64 dl, void *ra) {
  if (cur < 0) return 0;
  yield_op(O_POINT, 0, 0, ~0ull, "cond_wait", ra);
  *(int *)m = 0;
  int r = yield_op(O_COND, (u64)c, 0, dl, "cond_timedwait", ra);
  yield_op(O_LOCK, (u64)m, 0, ~0ull, "mutex_lock(cond)", ra);
  *(int *)m = cur + 1;
  return r;
}
int mcw_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000L) return EINVAL;
  return condwait(c, m, clkabs(*(int *)c, ts2ns(t)), RA);
}
int mcw_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *t) {
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000L) return EINVAL;
  return condwait(c, m, clkabs(id, ts2ns(t)), RA);
}
int mcw_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condwait(c, m, ~0ull, RA); }
static int sig(pthread_cond_t *c, bool all, void *ra) {
  if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "cond_signal", ra);
  for (u64 i = 0; i < G.nf; i++)
    if (G.f[i].op == O_COND && G.f[i].addr == (u64)c && !G.f[i].wake) { G.f[i].wake = 1; if (!all) break; }
  return 0;
}
int mcw_pthread_cond_signal(pthread_cond_t *c) { return sig(c, false, RA); }
int mcw_pthread_cond_broadcast(pthread_cond_t *c) { return sig(c, true, RA); }
// what else code may wait with
int mcw_timespec_get(struct timespec *ts, int base) { return mcw_clock_gettime(CLOCK_REALTIME, ts) ? 0 : base; }
int mcw_select(int, void *, void *, void *, struct timeval *tv) { if (cur >= 0 && tv) yield_op(O_SLEEP, 0, 0, G.now + tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull, "select", RA); return 0; }
int mcw_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
  if (cur < 0) return 0;
  u64 dl = ts2ns(t);
  for (;;) {
    yield_op(O_POINT, 0, 0, ~0ull, "mutex_timedlock", RA);
    if (!*(int *)m) { *(int *)m = cur + 1; return 0; }
    if (G.now >= dl) return ETIMEDOUT;
    yield_op(O_SLEEP, 0, 0, dl, "mutex_timedlock(wait)", RA);
  }
}
int mcw_pthread_spin_init(pthread_spinlock_t *l, int) { if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "spin_init", RA); *(int *)l = 0; return 0; }
int mcw_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int mcw_pthread_spin_lock(pthread_spinlock_t *l) {
  if (cur < 0) return 0;
  yield_op(O_LOCK, (u64)l, 0, ~0ull, "spin_lock", RA);
  *(int *)l = cur + 1; return 0;
}
int mcw_pthread_spin_trylock(pthread_spinlock_t *l) {
  if (cur < 0) return 0;
  yield_op(O_POINT, 0, 0, ~0ull, "spin_trylock", RA);
  if (*(int *)l) return EBUSY;
  *(int *)l = cur + 1; return 0;
}
int mcw_pthread_spin_unlock(pthread_spinlock_t *l) {
  if (cur < 0) return 0;
  yield_op(O_POINT, 0, 0, ~0ull, "spin_unlock", RA);
  *(int *)l = 0; return 0;
}
static int semwait(sem_t *s, u64 dl, void *ra) {
  if (cur < 0) { if (*(int *)s > 0) --*(int *)s; return 0; }
  for (;;) {
    yield_op(O_POINT, 0, 0, ~0ull, "sem_wait", ra);
    if (*(int *)s > 0) { --*(int *)s; return 0; }
    if (yield_op(O_COND, (u64)s, 0, dl, "sem_wait(wait)", ra) == ETIMEDOUT) { errno = ETIMEDOUT; return -1; }
  }
}
int mcw_sem_init(sem_t *s, int, unsigned v) { if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "sem_init", RA); *(int *)s = (int)v; return 0; }
int mcw_sem_destroy(sem_t *) { return 0; }
int mcw_sem_wait(sem_t *s) { return semwait(s, ~0ull, RA); }
int mcw_sem_timedwait(sem_t *s, const struct timespec *t) { return semwait(s, ts2ns(t), RA); }
int mcw_sem_clockwait(sem_t *s, clockid_t id, const struct timespec *t) { return semwait(s, clkabs(id, ts2ns(t)), RA); }
int mcw_sem_trywait(sem_t *s) {
  if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "sem_trywait", RA);
  if (*(int *)s > 0) { --*(int *)s; return 0; }
  errno = EAGAIN; return -1;
}
int mcw_sem_getvalue(sem_t *s, int *v) { if (cur >= 0) yield_op(O_POINT, 0, 0, ~0ull, "sem_getvalue", RA); *v = *(int *)s; return 0; }
int mcw_sem_post(sem_t *s) { sig((pthread_cond_t *)s, false, RA); ++*(int *)s; return 0; }
void mcw__ZNSt18condition_variable10notify_oneEv(pthread_cond_t *c) { sig(c, false, RA); }
void mcw__ZNSt18condition_variable10notify_allEv(pthread_cond_t *c) { sig(c, true, RA); }
void mcw__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(pthread_cond_t *c, pthread_mutex_t **lock) { condwait(c, *lock, ~0ull, RA); }
}

// ---------------------------------------------------------------- state diff/undo
struct Undo { u64 idx, old; };
static std::vector<Undo> undolog;

static inline void diff_range(uintptr_t lo, uintptr_t hi, u64 wb) {
  u64 *m = (u64 *)lo, n = (hi - lo) / 8, *s = shadow.data() + wb;
  for (u64 i = 0; i < n; i += 8) {
    u64 x = 0;
    for (int k = 0; k < 8; k++) x |= m[i + k] ^ s[i + k];
    if (!x) continue;
    for (int k = 0; k < 8; k++)
      if (m[i + k] != s[i + k]) {
        u64 a, b, c, d;
        hword(wb + i + k, s[i + k], a, b); hword(wb + i + k, m[i + k], c, d);
        H1 += c - a; H2 += d - b;
        undolog.push_back({wb + i + k, s[i + k]});
        s[i + k] = m[i + k];
      }
  }
}
static inline u64 *addr_of(u64 idx) {
  for (auto &r : regs) if (idx >= r.wbase && idx < r.wbase + (r.hi - r.lo) / 8) return (u64 *)r.lo + (idx - r.wbase);
  abort();
}
static void clean_stacks(int only) {
  for (u64 i = 0; i < MAXF; i++) {
    if (only >= 0 && (int)i != only) continue;
    if (i >= G.nf) { if (only >= 0) continue; if (stk_low[i] < stk_hi(i)) memset((void *)stk_low[i], 0, stk_hi(i) - stk_low[i]); continue; }
    uintptr_t sp = (uintptr_t)G.f[i].sp;
    if (G.f[i].op == O_DONE) sp = stk_hi(i);
    uintptr_t al = sp & ~63ull;
    if (al < stk_low[i]) stk_low[i] = al;
    if (sp < stk_lo(i) + 4096) { fprintf(stderr, "fiber stack exhausted\n"); _exit(3); }
    uintptr_t z = stk_low[i] - 2048; if (z < stk_lo(i)) z = stk_lo(i);
    memset((void *)z, 0, sp - z);
    if (G.f[i].op == O_DONE) G.f[i].sp = 0;
  }
}
static void take_diff() {
  for (auto &r : regs) {
    if (r.stk >= 0) {
      uintptr_t lo = stk_low[r.stk];
      if (lo < r.hi) diff_range(lo, r.hi, r.wbase + (lo - r.lo) / 8);
    } else diff_range(r.lo, r.hi, r.wbase);
  }
}
static void undo_to(size_t mark) {
  while (undolog.size() > mark) {
    Undo &u = undolog.back();
    *addr_of(u.idx) = u.old; shadow[u.idx] = u.old;
    undolog.pop_back();
  }
}
static void restore_shadow() { // memory := shadow, wholesale
  for (auto &r : regs) memcpy((void *)r.lo, shadow.data() + r.wbase, r.hi - r.lo);
}

// ---------------------------------------------------------------- scheduling
static u16 CH(int f, int alt) { return (u16)(f << 8 | alt); }
enum { ADV = 0xff00, FLUSH = 0xfe };
static int alts(int i) { // number of alternatives fiber i offers now (0 = blocked)
  Fiber &f = G.f[i];
  switch (f.op) {
  case O_START: case O_ACC: case O_POINT: case O_YIELD: return 1;
  case O_CHOOSE: return (int)f.info;
  case O_LOCK: return *(int *)f.addr == 0;
  case O_SLEEP: return G.now >= f.deadline;
  case O_JOIN: return G.f[f.addr - 1].op == O_DONE && !B[f.addr - 1].n;
  case O_COND: return f.wake ? 1 : (f.deadline != ~0ull && G.now >= f.deadline) ? 1 : (G.spurious > 0 ? 1 : 0);
  default: return 0;
  }
}
static void choices(std::vector<u16> &out) {
  size_t b = out.size();
  int first = opt_preempt >= 0 ? (int)G.last - 1 : -1;
  if (first >= 0) for (int a = 0, n = alts(first); a < n; a++) out.push_back(CH(first, a));
  bool stay = first >= 0 && out.size() > b && G.f[first].op != O_YIELD && G.f[first].op != O_CHOOSE && G.f[first].op != O_COND && G.f[first].op != O_SLEEP;
  bool forced = opt_preempt >= 0 && stay && (long)G.preempt >= opt_preempt;
  bool hard = false;
  if (!forced)
    for (int i = 0; i < (int)G.nf; i++) {
      if (i == first) continue;
      for (int a = 0, n = alts(i); a < n; a++) out.push_back(CH(i, a));
    }
  for (size_t k = b; k < out.size(); k++) { // anything really runnable (not just a spurious wakeup)?
    Fiber &f = G.f[out[k] >> 8];
    if (!(f.op == O_COND && !f.wake && !(f.deadline != ~0ull && G.now >= f.deadline))) hard = true;
  }
  bool dirty = false;
  if (opt_tso) for (int i = 0; i < (int)G.nf; i++) if (B[i].n) { out.push_back(CH(i, FLUSH)); dirty = true; }
  bool timed = false;
  for (int i = 0; i < (int)G.nf; i++)
    if ((G.f[i].op == O_SLEEP || G.f[i].op == O_COND) && G.f[i].deadline != ~0ull && G.f[i].deadline > G.now) timed = true;
  if (timed && !dirty && (!hard || (G.late > 0 && !forced))) out.push_back(ADV);
}
static u64 min_deadline() {
  u64 m = ~0ull;
  for (int i = 0; i < (int)G.nf; i++)
    if ((G.f[i].op == O_SLEEP || G.f[i].op == O_COND) && G.f[i].deadline > G.now) m = std::min(m, G.f[i].deadline);
  return m;
}

enum { RC_OK, RC_FAIL, RC_PRUNE };
static int do_step(u16 c) {
  stepno++;
  if (c == ADV) {
    bool hard = false;
    for (int i = 0; i < (int)G.nf; i++) {
      Fiber &f = G.f[i];
      if (alts(i) && !(f.op == O_COND && !f.wake && !(f.deadline != ~0ull && G.now >= f.deadline))) hard = true;
    }
    if (hard) G.late--;
    G.now = min_deadline();
    return RC_OK;
  }
  int i = c >> 8, alt = c & 255;
  if (alt == FLUSH) { sb_flush(i); return RC_OK; }
  sb_pend.n = 0;
  Fiber &f = G.f[i];
  if (opt_preempt >= 0) {
    int l = (int)G.last - 1;
    if (l >= 0 && l != i && alts(l) > 0) {
      u64 o = G.f[l].op;
      if (o != O_YIELD && o != O_CHOOSE && o != O_COND && o != O_SLEEP) G.preempt++;
    }
    G.last = i + 1;
  }
  if (f.op == O_CHOOSE) f.ret = alt;
  if (f.op == O_COND) {
    if (f.wake) f.ret = 0;
    else if (f.deadline != ~0ull && G.now >= f.deadline) f.ret = ETIMEDOUT;
    else { G.spurious--; f.ret = 0; }
    f.wake = 0;
  }
  int r = sigsetjmp(crash_jmp, 0);
  if (r == 0) {
    cur = i;
    in_code = 1;
    mc_switch(&vm_sp, f.sp);
    in_code = 0;
    cur = -1;
    if (G.f[i].op == O_FAIL) return RC_FAIL;
    if (G.f[i].op == O_PRUNE) return RC_PRUNE;
    clean_stacks(i);
    return RC_OK;
  }
  in_code = 0;
  cur = -1;
  return r == 3 ? RC_PRUNE : RC_FAIL;
}
// run an oracle function of the harness on the current state, undoing anything it writes
static int run_oracle(void (*fn)()) {
  if (!fn) return RC_OK;
  int r = sigsetjmp(crash_jmp, 0);
  stepno++;
  if (r == 0) {
    in_code = 1; fn(); in_code = 0;
  }
  in_code = 0;
  cur = -1;
  return r == 0 ? RC_OK : r == 3 ? RC_PRUNE : RC_FAIL;
}

static void on_signal(int s) {
  if (s == SIGVTALRM) {
    if (!in_code) { wd_count = 0; return; }
    if (wd_last != stepno) { wd_last = stepno; wd_count = 0; return; }
    if (++wd_count < 10) return;
    wd_count = 0;
    fail_key = "hang"; fail_msg = "code under test runs forever without reaching a scheduling point";
    siglongjmp(crash_jmp, 1);
  }
  if (!in_code) { static const char m[] = "mcvm: internal crash\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); }
  fail_key = s == SIGSEGV || s == SIGBUS ? "crash-memory" : s == SIGILL || s == SIGTRAP ? "crash-bounds" : s == SIGFPE ? "crash-arith" : "crash-abort";
  fail_msg = strsignal(s);
  siglongjmp(crash_jmp, 1);
}

static std::string where(void *pc) {
  Dl_info d;
  if (!pc || !dladdr(pc, &d) || !d.dli_sname) return "";
  std::string n = d.dli_sname;
  extern char *demangle(const char *);
  char *x = demangle(d.dli_sname);
  if (x) { n = x; free(x); }
  if (n.size() > 90) n = n.substr(0, 90) + "...";
  return n;
}
#include <cxxabi.h>
char *demangle(const char *s) { int st; return abi::__cxa_demangle(s, 0, 0, &st); }
static std::string memname(u64 a) {
  char b[128];
  for (int i = 0; i < nso; i++)
    if (a >= so_lo[i] && a < so_hi[i]) {
      Dl_info d;
      if (dladdr((void *)a, &d) && d.dli_sname) { snprintf(b, sizeof b, "%.60s+%ld", d.dli_sname, (long)(a - (u64)d.dli_saddr)); return b; }
      snprintf(b, sizeof b, "data+0x%lx", (long)(a - so_lo[i])); return b;
    }
  for (int i = 0; i < MAXF; i++) if (a - stk_lo(i) < STK) { snprintf(b, sizeof b, "stack(%s)", fname[i].c_str()); return b; }
  return "?";
}
static std::string describe(u16 c) {
  char b[512];
  if (c == ADV) { snprintf(b, sizeof b, "time advances to %llu ns", (unsigned long long)min_deadline()); return b; }
  int i = c >> 8, alt = c & 255;
  Fiber &f = G.f[i];
  if (alt == FLUSH) { snprintf(b, sizeof b, "[%s] a buffered store of %d bytes reaches %s", fname[i].c_str(), (int)B[i].e[0].n, memname(B[i].e[0].a).c_str()); return b; }
  std::string w = where(dbg_pc[i]);
  if (f.op == O_ACC) snprintf(b, sizeof b, "[%s] %s%d %s in %s", fname[i].c_str(), dbg_tag[i], (int)(f.info & 0xffff), memname(f.addr).c_str(), w.c_str());
  else if (f.op == O_CHOOSE) snprintf(b, sizeof b, "[%s] choose %s = %d of %d", fname[i].c_str(), dbg_tag[i] ? dbg_tag[i] : "", alt, (int)f.info);
  else snprintf(b, sizeof b, "[%s] %s (%s) in %s", fname[i].c_str(), opname[f.op], dbg_tag[i] ? dbg_tag[i] : "", w.c_str());
  return b;
}

static long n_hang;
static std::set<std::string> opt_known; // recorded findings: do not cut the search short
static double t_viol;
static double nowsec();
static void record(const std::string &key, const std::string &msg) {
  if (key == "hang") n_hang++;
  if (!t_viol && !opt_known.count(key)) t_viol = nowsec();
  auto it = viols.find(key);
  if (it == viols.end()) {
    if ((long)viols.size() >= opt_keys) return;
    viols[key] = Viol{key, msg, path, 1, "", false};
  } else {
    it->second.count++;
    if (path.size() < it->second.path.size()) { it->second.path = path; it->second.msg = msg; }
  }
}

// ---------------------------------------------------------------- visited set
struct Ent { u64 a, b; u32 id; u32 used; };
static std::vector<Ent> tab;
static u64 tabmask, tabn;
static bool visit(u64 a, u64 b, u32 newid, u32 &id) {
  if (tabn * 10 > tab.size() * 6) {
    std::vector<Ent> old; old.swap(tab);
    tab.assign(old.size() * 2, Ent{0, 0, 0, 0}); tabmask = tab.size() - 1;
    for (auto &e : old) if (e.used) { u64 i = e.a & tabmask; while (tab[i].used) i = (i + 1) & tabmask; tab[i] = e; }
  }
  u64 i = a & tabmask;
  while (tab[i].used) { if (tab[i].a == a && tab[i].b == b) { id = tab[i].id; return false; } i = (i + 1) & tabmask; }
  tab[i] = Ent{a, b, newid, 1}; tabn++; id = newid;
  return true;
}
static std::vector<u32> e_src, e_dst, par;
static std::vector<u16> par_ch;
static std::vector<u8> good;

struct Frame { size_t undo; u32 id; u32 ch; u32 n, next; u64 h1, h2; };
static std::vector<Frame> st;
static std::vector<u16> chs;
static double t0;
static double nowsec() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool all_done() {
  bool some = false, open = false;
  for (int i = 0; i < (int)G.nf; i++) {
    if (G.f[i].op != O_DONE && !G.f[i].daemon) return false;
    if (B[i].n) return false;
    if (!G.f[i].daemon) some = true;
    if (G.f[i].op != O_DONE) open = true;
  }
  return some || !open; // only daemons: run to the fixpoint
}
static void solo_probe() {
  for (int i = 0; i < (int)G.nf; i++) {
    if (G.f[i].opdepth == 0 || G.f[i].op == O_DONE) continue;
    u64 c0 = G.f[i].opcount;
    bool ok = false, failed = false;
    size_t mark = undolog.size();
    u64 h1 = H1, h2 = H2;
    n_solo++;
    std::set<std::pair<u64, u64>> seen;
    for (long k = 0; k < opt_solo_max; k++) {
      if (alts(i) == 0) break;
      int r = do_step(CH(i, 0));
      if (r != RC_OK) { failed = true; break; }
      if (G.f[i].opcount != c0 || G.f[i].op == O_DONE) { ok = true; break; }
      take_diff();
      if (!seen.insert({H1, H2}).second) break; // cycle: never completes alone
    }
    if (failed) { // memory may be dirty beyond the diff ranges
      undo_to(mark); H1 = h1; H2 = h2; restore_shadow();
      continue;  // the failure itself is reported by the main search
    }
    take_diff();
    undo_to(mark);
    H1 = h1; H2 = h2;
    if (!ok) {
      const char *k = h_stuck ? h_stuck(i) : "blocked-operation";
      if (k) record(k, "fiber " + fname[i] + " running alone never completes its operation");
    }
  }
}
// evaluate oracles at a fresh state; returns false if the state is bad/pruned (do not expand)
static bool enter_state(bool &term) {
  term = false;
  if (h_invariant) {
    int r = run_oracle(h_invariant);
    if (r != RC_OK) { if (r == RC_FAIL) record(fail_key, fail_msg); else n_pruned++; return false; }
  }
  if (all_done()) {
    term = true; n_term++;
    size_t mark = undolog.size(); u64 h1 = H1, h2 = H2;
    int r = run_oracle(h_final);
    if (r == RC_FAIL) { record(fail_key, fail_msg); restore_shadow(); return false; }
    if (h_final) { take_diff(); undo_to(mark); H1 = h1; H2 = h2; }
    return false;
  }
  return true;
}
static void build_regions(void *handle) {
  struct link_map *lm; dlinfo(handle, RTLD_DI_LINKMAP, &lm);
  struct Ctx { uintptr_t base; } cx{lm->l_addr};
  dl_iterate_phdr([](struct dl_phdr_info *in, size_t, void *p) -> int {
    if (in->dlpi_addr != ((Ctx *)p)->base) return 0;
    uintptr_t rlo = 0, rhi = 0;
    for (int i = 0; i < in->dlpi_phnum; i++)
      if (in->dlpi_phdr[i].p_type == PT_GNU_RELRO) { rlo = in->dlpi_addr + in->dlpi_phdr[i].p_vaddr; rhi = rlo + in->dlpi_phdr[i].p_memsz; }
    for (int i = 0; i < in->dlpi_phnum; i++) {
      auto &ph = in->dlpi_phdr[i];
      if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
      uintptr_t lo = in->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
      if (rlo <= lo && rhi > lo) lo = (rhi + 4095) & ~4095ull;
      if (lo >= hi) continue;
      so_lo[nso] = lo & ~63ull; so_hi[nso] = (hi + 63) & ~63ull; nso++;
    }
    return 1;
  }, &cx);
  u64 wb = 0;
  auto add = [&](uintptr_t lo, uintptr_t hi, int stk) { regs.push_back({lo, hi, stk, wb}); wb += (hi - lo) / 8; };
  add((uintptr_t)&G, (uintptr_t)&G + sizeof G, -1);
  if (opt_tso) add((uintptr_t)&B, (uintptr_t)&B + sizeof B, -1);
  for (int i = 0; i < nso; i++) add(so_lo[i], so_hi[i], -1);
  for (int i = 0; i < MAXF; i++) {
    void *p = mmap((void *)(stk_lo(i)), STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    stk_low[i] = stk_hi(i);
    add(stk_lo(i), stk_hi(i), i);
  }
  shadow.assign(wb, 0);
}
static void to_initial() { shadow = initial; restore_shadow(); undolog.clear(); }

// re-execute a path from the initial state; returns key reached ("" = none)
static std::string replay(const std::vector<u16> &p, std::string *txt, bool want_stuck) {
  quiet_record = true;
  to_initial();
  std::string key;
  for (size_t k = 0; k < p.size(); k++) {
    std::vector<u16> c; choices(c);
    if (std::find(c.begin(), c.end(), p[k]) == c.end()) { key = "DIVERGED"; break; }
    if (txt) { char b[32]; snprintf(b, sizeof b, "%4zu  ", k); *txt += b + describe(p[k]) + "\n"; }
    int r = do_step(p[k]);
    if (r == RC_FAIL) { key = fail_key; if (txt) *txt += "      => " + fail_key + ": " + fail_msg + "\n"; break; }
    if (r == RC_PRUNE) { key = "PRUNED"; break; }
  }
  if (key.empty() && h_invariant) { if (run_oracle(h_invariant) == RC_FAIL) { key = fail_key; if (txt) *txt += "      => " + fail_key + ": " + fail_msg + "\n"; } }
  if (key.empty() && all_done() && h_final) { if (run_oracle(h_final) == RC_FAIL) { key = fail_key; if (txt) *txt += "      => " + fail_key + ": " + fail_msg + "\n"; } }
  if (key.empty() && want_stuck) key = "STATE";
  quiet_record = false;
  return key;
}
static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static std::string pathstr(const std::vector<u16> &p) {
  std::string s; char b[16];
  for (auto c : p) { snprintf(b, sizeof b, "%x ", c); s += b; }
  return s;
}
static void write_out(double secs) {
  FILE *o = opt_out.empty() ? stdout : fopen(opt_out.c_str(), "w");
  if (!o) { perror("out"); _exit(3); }
  fprintf(o, "{\"states\":%llu,\"transitions\":%llu,\"terminal\":%llu,\"pruned\":%llu,\"revisits\":%llu,\"solo_probes\":%llu,\"max_depth\":%llu,\"outcomes\":%zu,\"exhaustive\":%s,\"cap\":\"%s\",\"secs\":%.2f,\n",
          (unsigned long long)n_states, (unsigned long long)n_trans, (unsigned long long)n_term, (unsigned long long)n_pruned, (unsigned long long)n_revisit, (unsigned long long)n_solo, (unsigned long long)n_maxdepth,
          outcomes.size(), capped ? "false" : "true", cap_reason.c_str(), secs);
  fprintf(o, "\"stats\":{");
  bool first = true;
  for (auto &s : stats) { fprintf(o, "%s\"%s\":%ld", first ? "" : ",", esc(s.first).c_str(), s.second); first = false; }
  fprintf(o, "},\n\"samples\":[");
  first = true;
  for (auto &s : samples) { fprintf(o, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
  fprintf(o, "],\n\"outcome_list\":[");
  first = true; int n = 0;
  for (auto &s : outcomes) { if (n++ >= 20) break; fprintf(o, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
  fprintf(o, "],\n\"violations\":[");
  first = true;
  for (auto &v : viols) {
    fprintf(o, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"count\":%ld,\"reproduced\":%s,\"len\":%zu,\"path\":\"%s\",\"steps\":\"%s\"}", first ? "" : ",\n", esc(v.second.key).c_str(), esc(v.second.msg).c_str(), v.second.count, v.second.reproduced ? "true" : "false", v.second.path.size(), pathstr(v.second.path).c_str(), esc(v.second.steps).c_str());
    first = false;
  }
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o); else fflush(o);
}

int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "usage: mcvm harness.so [--opt v] [name=value]\n"); return 2; }
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--preempt") opt_preempt = atol(nx().c_str());
    else if (a == "--max-states") opt_max_states = atol(nx().c_str());
    else if (a == "--max-sec") opt_max_sec = atof(nx().c_str());
    else if (a == "--graph") opt_graph = 1;
    else if (a == "--tso") opt_tso = 1;
    else if (a == "--solo") opt_solo = 1;
    else if (a == "--out") opt_out = nx();
    else if (a == "--replay") opt_replay = nx();
    else if (a == "--known") opt_known.insert(nx());
    else if (a == "-v") opt_verbose = 1;
    else { auto e = a.find('='); if (e == std::string::npos) { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; } params[a.substr(0, e)] = atol(a.c_str() + e + 1); }
  }
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  h_setup = (void (*)())dlsym(h, "mc_setup");
  h_final = (void (*)())dlsym(h, "mc_final");
  h_invariant = (void (*)())dlsym(h, "mc_invariant");
  h_stuck = (const char *(*)(int))dlsym(h, "mc_stuck");
  if (!h_setup) { fprintf(stderr, "no mc_setup\n"); return 2; }
  build_regions(h);
  static char altstk[65536];
  stack_t ss = {}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, 0);
  struct sigaction sa = {}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, 0);
  struct itimerval it = {{0, 500000}, {0, 500000}}; setitimer(ITIMER_VIRTUAL, &it, 0);

  t0 = nowsec();
  // mc_setup may itself reach the code under test and crash
  int rs = run_oracle(h_setup);
  if (rs == RC_FAIL) record(fail_key, "in setup: " + fail_msg);
  clean_stacks(-1);
  undolog.clear(); H1 = H2 = 0;
  take_diff();
  undolog.clear();
  initial = shadow;

  if (!opt_replay.empty()) {
    std::vector<u16> p; FILE *f = fopen(opt_replay.c_str(), "r");
    if (!f) { perror("replay"); return 2; }
    unsigned x; while (fscanf(f, "%x", &x) == 1) p.push_back(x);
    std::string txt, k = replay(p, &txt, true);
    printf("%sresult: %s\n", txt.c_str(), k.c_str());
    return k == "STATE" ? 0 : 1;
  }
  tab.assign(1 << 16, Ent{0, 0, 0, 0}); tabmask = tab.size() - 1;
  u32 id;
  visit(H1, H2, 0, id); n_states = 1;
  par.push_back(0); par_ch.push_back(0); good.push_back(0);
  bool term;
  if (rs == RC_OK && enter_state(term)) {
    u32 cb = chs.size(); choices(chs);
    st.push_back(Frame{0, 0, cb, (u32)chs.size() - cb, 0, H1, H2});
  }
  while (!st.empty()) {
    Frame &fr = st.back();
    if (fr.next >= fr.n) {
      size_t u = fr.undo;
      chs.resize(fr.ch);
      st.pop_back();
      if (!st.empty()) { undo_to(u); H1 = st.back().h1; H2 = st.back().h2; path.pop_back(); }
      continue;
    }
    if ((long)n_states >= opt_max_states) { capped = true; cap_reason = "max-states"; break; }
    if ((n_trans & 1023) == 0 && nowsec() - t0 > opt_max_sec) { capped = true; cap_reason = "max-sec"; break; }
    // enough has been found: do not spend the budget on more instances of it
    if (n_hang >= 3 || (t_viol && (n_trans & 255) == 0 && nowsec() - t_viol > 20)) { capped = true; cap_reason = "stopped after violations"; break; }
    u16 c = chs[fr.ch + fr.next++];
    u32 src = fr.id;
    size_t mark = undolog.size();
    path.push_back(c);
    if (path.size() > n_maxdepth) n_maxdepth = path.size();
    n_trans++;
    int r = do_step(c);
    if (r != RC_OK) {
      if (r == RC_FAIL) record(fail_key, fail_msg); else n_pruned++;
      good[src] = 1;
      undo_to(mark); restore_shadow(); H1 = st.back().h1; H2 = st.back().h2;
      path.pop_back();
      continue;
    }
    take_diff();
    bool fresh = visit(H1, H2, n_states, id);
    if (opt_graph) { e_src.push_back(src); e_dst.push_back(id); }
    if (fresh) {
      n_states++;
      if (opt_graph) { par.push_back(src); par_ch.push_back(c); }
      good.push_back(0);
      bool go = enter_state(term);
      if (!go) good[id] = 1;
      if (go) {
        if (opt_solo) solo_probe();
        u32 cb = chs.size(); choices(chs);
        u32 n = chs.size() - cb;
        if (n == 0) {
          std::string k = "deadlock";
          if (h_stuck) for (int i = 0; i < (int)G.nf; i++) if (G.f[i].op != O_DONE && !G.f[i].daemon) { const char *x = h_stuck(i); if (x) { k = x; break; } }
          record(k, "no fiber can run but not all have finished");
          good[id] = 1;
        } else {
          st.push_back(Frame{mark, id, cb, n, 0, H1, H2});
          continue;
        }
      }
    } else n_revisit++;
    undo_to(mark); H1 = st.back().h1; H2 = st.back().h2;
    path.pop_back();
  }
  // liveness: from every state some continuation finishes (AG EF done)
  if (opt_graph && !capped) {
    u64 n = n_states;
    std::vector<u32> head(n + 1, 0), adj(e_src.size());
    for (auto d : e_dst) head[d + 1]++;
    for (u64 i = 0; i < n; i++) head[i + 1] += head[i];
    std::vector<u32> pos(head.begin(), head.end() - 1);
    for (size_t k = 0; k < e_src.size(); k++) adj[pos[e_dst[k]]++] = e_src[k];
    std::vector<u32> q;
    for (u64 i = 0; i < n; i++) if (good[i]) q.push_back(i);
    for (size_t k = 0; k < q.size(); k++)
      for (u32 x = head[q[k]]; x < head[q[k] + 1]; x++) if (!good[adj[x]]) { good[adj[x]] = 1; q.push_back(adj[x]); }
    u64 bad = 0; std::vector<u32> badids;
    for (u64 i = 0; i < n; i++) if (!good[i]) { bad++; if (badids.size() < 200) badids.push_back(i); }
    stats["states_that_cannot_finish"] = bad;
    for (u32 b : badids) {
      std::vector<u16> p;
      for (u32 s = b; s; s = par[s]) p.push_back(par_ch[s]);
      std::reverse(p.begin(), p.end());
      std::string k = "livelock";
      if (h_stuck) {
        replay(p, 0, true);
        for (int i = 0; i < (int)G.nf; i++) if (G.f[i].op != O_DONE && !G.f[i].daemon) { const char *x = h_stuck(i); if (x) { k = x; break; } }
      }
      path = p;
      record(k, "from here no schedule lets every operation finish");
    }
  }
  for (auto &v : viols) {
    std::string txt, a = replay(v.second.path, &txt, true), b = replay(v.second.path, 0, true);
    v.second.steps = txt;
    v.second.reproduced = a == b && a != "DIVERGED" && (a == v.second.key || a == "STATE");
  }
  write_out(nowsec() - t0);
  return viols.empty() ? 0 : 1;
}
