// C23: the thread a monitor runs on has the scheduling policy and priority the
// monitor was constructed with: every policy with every priority of the system,
// for monitors constructed by an ordinary thread and by threads that run under
// another policy themselves (from within the run of another monitor).
#include "common.h"
#include <periodicmonitor.h>
namespace mch { // so that no name of the code under test gets in the way
#define US 1000ull
static int pol[2], prio[2], got_pol[2], got_prio[2], runs[2];
static bool defaulted[2];
static int two; // both are constructed by ordinary threads, at the same time
class Mon : public RTML_monitor<'m', 'o', 'n'> {
public:
  int k;
  Mon(int k) : RTML_monitor(1000, pol[k], prio[k]), k(k) {}
  Mon(int k, bool) : RTML_monitor(1000), k(k) {}
  void run();
};
static Box<Mon> mon[2];
static void construct(int k) {
  if (defaulted[k]) new (mon[k].raw) Mon(k, true); else new (mon[k].raw) Mon(k);
  MC_CHECK(mon[k]->getPeriod() == 1000, "period", "getPeriod() after construction");
  MC_CHECK(mon[k]->enable() == 0, "enable-status", "enable() failed");
}
void Mon::run() {
  struct sched_param sp;
  pthread_getschedparam(pthread_self(), &got_pol[k], &sp);
  got_prio[k] = sp.sched_priority;
  if (!runs[k]++ && k == 0 && !two) construct(1); // the other one is constructed by this thread
}
static int npol, nprio;
static void choose(int k) {
  static const int P[] = {SCHED_OTHER, SCHED_FIFO, SCHED_RR};
  // first: every priority; second: the boundary ones
  static const int B[] = {1, 2, 50, 98, 99};
  pol[k] = P[mc_choose(3, "policy")];
  prio[k] = pol[k] == SCHED_OTHER ? 0 : k == 0 && !two ? 1 + mc_choose(99, "priority") : B[mc_choose(5, "priority")];
  if (mc_choose(4, "default constructor") == 3) { defaulted[k] = true; pol[k] = DEFAULT_SCHED; prio[k] = DEFAULT_PRIORITY; }
}
static void check(int k, int cp, int cr) {
  mc_stat("ops", 1);
  MC_CHECK(runs[k], "never-runs", "the monitor has not run");
  if (got_pol[k] == pol[k] && got_prio[k] == prio[k]) return;
  MC_CHECK(got_pol[k] == cp && got_prio[k] == cr, "wrong-scheduling", "a monitor constructed with policy %d priority %d runs with policy %d priority %d", pol[k], prio[k], got_pol[k], got_prio[k]);
  mc_fail("scheduling-inherited", "a monitor constructed with policy %d priority %d runs with the policy %d and priority %d of the thread that constructed it", pol[k], prio[k], got_pol[k], got_prio[k]);
}
static void controller(void *) {
  mc_burst(1);
  choose(0); choose(1);
  construct(0);
  mc_sleep_ns(5000 * US);
  for (int k = 0; k < 2; k++) mon[k]->disable();
  for (int k = 0; k < 2; k++) MC_CHECK(mon[k]->join() == 0, "join-status", "join() failed");
  // of the creator: an ordinary thread, or the first monitor's
  check(0, SCHED_OTHER, 0);
  check(1, got_pol[0], got_prio[0]);
  mc_outcome("policy %d priority %d", pol[0], prio[0]);
  mc_sample("policies %d, %d, priorities %d, %d: as asked for", pol[0], pol[1], prio[0], prio[1]);
}
static void one(void *a) {
  int k = (int)(long)a;
  mc_burst(1);
  choose(k);
  mc_burst(0);
  construct(k);
  mc_burst(1);
  mc_sleep_ns(5000 * US);
  mon[k]->disable();
  MC_CHECK(mon[k]->join() == 0, "join-status", "join() failed");
  check(k, SCHED_OTHER, 0);
  mc_outcome("policy %d priority %d", pol[k], prio[k]);
}
extern "C" void mc_setup() {
  two = mc_param("two", 0);
  memset((void *)mon, 0xa5, sizeof mon);
  mc_clock(1700000000999000000ull, 0);
  if (two) { mc_spawn(one, (void *)0, "main"); mc_spawn(one, (void *)1, "main2"); return; }
  mc_spawn(controller, 0, "main");
}
} // namespace
