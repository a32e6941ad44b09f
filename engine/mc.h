// Interface between a harness (a shared object holding the code under test) and
// the explicit-state explorer mcvm (vm.cpp).
//
// A harness defines   void mc_setup()            build the initial state, spawn fibers
// and optionally      void mc_final()            oracle on every terminal state
//                     void mc_invariant()        oracle on every state
//                     const char *mc_stuck(int)  names why a fiber cannot finish (key)
// All of its mutable memory (.data/.bss of the shared object, fiber stacks,
// virtual clock, fiber control) is the explored state.
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// nondeterminism
int mc_choose(int n, const char *tag);      // explored branching, 0..n-1
void mc_point(const char *tag);             // explicit scheduling point
int mc_spawn(void (*fn)(void *), void *arg, const char *name);
int mc_self(void);                          // fiber index, -1 in setup/final
int mc_finished(int fiber);
void mc_daemon(int fiber);                  // may be blocked/unfinished at the end
void mc_join(int fiber);
// oracles
void mc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void mc_outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_prune(void);                        // abandon this branch (not a violation)
void mc_stat(const char *name, long add);   // counters, not part of the state
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// setup
void mc_private(const void *p, size_t n);   // never a scheduling point
void mc_shared(const void *p, size_t n);    // scheduling point even on own stack
long mc_param(const char *name, long def);
void mc_burst(int on);                      // accesses of this fiber are no scheduling points (waiting still is)
// operations in flight (for solo-progress probes)
void mc_op_begin(void);
void mc_op_end(void);
// virtual time (nanoseconds) and fault budgets
uint64_t mc_now(void);
void mc_sleep_ns(uint64_t ns);
void mc_clock(uint64_t start, uint64_t tick_per_read); // tick 0: frozen between waits
void mc_clock_choice(int on);               // each clock read may or may not tick first
void mc_budget(int spurious, int late);
#ifdef __cplusplus
}
#endif
#define MC_NOINST __attribute__((no_sanitize("thread")))
#define MC_CHECK(c, key, ...) do { if (!(c)) mc_fail(key, __VA_ARGS__); } while (0)
#endif
