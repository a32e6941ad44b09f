// The explorer's own test: which outcomes of the classical litmus tests it finds, with and
// without --tso (tools/selftest.sh compares them with what x86-TSO allows).
#include "common.h"
#include <atomic>
static long x, y;
static long r[4], l0, l1;
static std::atomic<long> ax(0), ay(0);
static void sb0(void *) { x = 1; r[0] = y; }
static void sb1(void *) { y = 1; r[1] = x; }
static void sbf0(void *) { x = 1; std::atomic_thread_fence(std::memory_order_seq_cst); r[0] = y; }
static void sbf1(void *) { y = 1; std::atomic_thread_fence(std::memory_order_seq_cst); r[1] = x; }
static void sbl0(void *) { x = 1; __sync_fetch_and_add(&l0, 1); r[0] = y; }
static void sbl1(void *) { y = 1; __sync_fetch_and_add(&l1, 1); r[1] = x; }
static void sbs0(void *) { ax.store(1); r[0] = ay.load(); }
static void sbs1(void *) { ay.store(1); r[1] = ax.load(); }
static void sbr0(void *) { ax.store(1, std::memory_order_release); r[0] = ay.load(std::memory_order_acquire); }
static void sbr1(void *) { ay.store(1, std::memory_order_release); r[1] = ax.load(std::memory_order_acquire); }
static void mp0(void *) { x = 1; y = 1; }
static void mp1(void *) { r[0] = y; r[1] = x; }
static void lb0(void *) { r[0] = x; y = 1; }
static void lb1(void *) { r[1] = y; x = 1; }
static void n60(void *) { x = 1; r[0] = x; r[1] = y; } // n6: own store seen early
static void n61(void *) { y = 2; x = 2; }
static void i0(void *) { x = 1; }                       // iriw
static void i1(void *) { y = 1; }
static void i2(void *) { r[0] = x; r[1] = y; }
static void i3(void *) { r[2] = y; r[3] = x; }
static void two0(void *) { x = 1; x = 2; r[0] = x; }     // coherence
static void two1(void *) { r[1] = x; r[2] = x; }
extern "C" void mc_setup() {
  mc_private(&r, sizeof r);
  typedef void (*F)(void *);
  static const F T[][4] = {{sb0, sb1}, {sbf0, sbf1}, {sbl0, sbl1}, {sbs0, sbs1}, {sbr0, sbr1}, {mp0, mp1}, {lb0, lb1}, {n60, n61}, {i0, i1, i2, i3}, {two0, two1}};
  for (int i = 0; i < 4; i++) { F f = T[mc_param("test", 0)][i]; if (f) mc_spawn(f, 0, "t"); }
}
extern "C" void mc_final() { mc_outcome("%ld%ld%ld%ld x%ld", r[0], r[1], r[2], r[3], x); }
