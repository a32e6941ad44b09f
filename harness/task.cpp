// C16/C17: the real monitor class and its task thread, every interleaving of every
// shared access of the controlling thread(s), the task thread(s), the clock and the
// spurious wake-ups of the condition variable.
#include "common.h"
#include <periodicmonitor.h>
namespace mch { // so that no name of the code under test gets in the way
#ifndef NM
#define NM 1
#endif
#define US 1000ull
#define START 1700000000999000000ull
enum { MAXJ = 12 };
struct MonHist {
  int constructed, enables, enable_done, disables, disable_done, runs, in_run, after; // after: runs begun after disable() had returned
  int enabled_first;      // some enable() began before any disable() returned
  unsigned long long t_enable0, t_enable1; // first enable: called / returned
  unsigned long long t_disable1; // disable() returned for the first time
  unsigned long long beg[MAXJ], end[MAXJ];
};
static struct Hist { MonHist m[NM]; int maxruns; } h;
static useconds_t per[NM], newper[NM];
static int setat[NM];      // setPeriod(newper) is called by that run (1-based), 0: never
static int dur_mode, nothread;
class Mon : public RTML_monitor<'m', 'o', 'n'> {
public:
  int k;
  Mon(int k, useconds_t p) : RTML_monitor(p, mc_param("policy", SCHED_OTHER), mc_param("prio", 0)), k(k) {}
  MC_NOINST void begin() {
    MonHist &M = h.m[k];
    MC_CHECK(M.enables, "run-before-enable", "the monitor runs although enable() was never called");
    MC_CHECK(!M.in_run, "overlap", "two runs of the same monitor overlap");
    M.in_run = 1;
    if (M.disable_done && ++M.after > 1) mc_fail("run-after-disable", "%d runs began after disable() returned", M.after);
    // without late scheduling the thread tests at its release whether it is to run
    if (M.disable_done && !mc_param("late", 0) && mc_now() > M.t_disable1) mc_fail("released-after-disable", "a run began %llu us after disable() returned", (mc_now() - M.t_disable1) / US);
    if (M.runs < MAXJ) M.beg[M.runs] = mc_now();
    M.runs++;
    mc_stat("ops", 1);
  }
  MC_NOINST void finish() { MonHist &M = h.m[k]; if (M.runs <= MAXJ) M.end[M.runs - 1] = mc_now(); M.in_run = 0; }
  void run() {
    begin();
    if (setat[k] == h.m[k].runs) setPeriod(newper[k]);
    long d = dur_mode ? mc_choose(dur_mode, "run time") * (long)(per[k] * US * 3 / 4) : 0;
    if (d) mc_sleep_ns(d); else mc_point("in run");
    finish();
  }
};
static Box<Mon> mon[NM];
static MC_NOINST void bump(int &x) { x++; }
static MC_NOINST void now_into(unsigned long long &x) { if (!x) x = mc_now(); }
static void do_enable(int k) {
  MonHist &M = h.m[k];
  if (!M.disable_done) M.enabled_first = 1;
  M.enables++; now_into(M.t_enable0);
  if (nothread) MC_CHECK(mon[k]->enable() != P_OK, "enable-no-thread", "enable() reports success although the monitor's thread could not be created");
  else MC_CHECK(mon[k]->enable() == P_OK, "enable-status", "enable() failed");
  now_into(M.t_enable1); M.enable_done++;
}
static void do_disable(int k) {
  MonHist &M = h.m[k];
  M.disables++;
  MC_CHECK(mon[k]->disable() == P_OK, "disable-status", "disable() failed");
  now_into(M.t_disable1); M.disable_done++;
}
static void do_status(int k) {
  MonHist &M = h.m[k];
  int runs0 = M.runs, dd = M.disable_done, en = M.enables;
  bool r = mon[k]->isRunning();
  if (r && nothread) mc_fail("running-no-thread", "isRunning() is true although the monitor's thread could not be created");
  if (r) MC_CHECK(h.m[k].enables && !dd, en ? "running-after-disable" : "running-before-enable", "isRunning() is true %s", en ? "after disable() returned" : "although enable() was never called");
  else MC_CHECK(!(runs0 && !M.disables), "not-running", "isRunning() is false although the monitor has run and disable() was never called");
  mc_stat("ops", 1);
}
static void step(int k, int op) {
  switch (op) {
  case 0: do_enable(k); break;
  case 1: do_disable(k); break;
  case 2: do_status(k); break;
  case 3: mc_sleep_ns(per[k] * US + (per[k] * US) / 2); break;
  case 4: mc_sleep_ns(130 * US); break;
  }
}
static void controller(void *) {
  // the monitor is created by the controlling thread: its thread may start before the constructor returns
  for (int k = 0; k < NM; k++) { new (mon[k].raw) Mon(k, per[k]); h.m[k].constructed = 1; MC_CHECK(mon[k]->getPeriod() == per[k], "period", "getPeriod() after construction"); }
  static const int OPS = 5;
  for (int n = mc_param("ops", 4); n > 0; n--) {
    int x = mc_choose(OPS * NM + 1, "operation");
    if (x == OPS * NM) break;
    step(x / OPS, x % OPS);
  }
  for (int k = 0; k < NM; k++) {
#ifdef ENABLE_AT_END
    // once enabled and not disabled, a monitor does run
    if (!h.m[k].disables) { if (!h.m[k].enables) do_enable(k); mc_sleep_ns(2 * per[k] * US + 300 * US); MC_CHECK(h.m[k].runs > 0, "never-runs", "two periods after enable() the monitor has not run"); do_status(k); }
#endif
    do_disable(k);
  }
  for (int k = 0; k < NM; k++) {
    if (nothread) { mon[k]->join(); MC_CHECK(!h.m[k].runs, "run-no-thread", "it has run"); continue; }
    MC_CHECK(mon[k]->join() == 0, "join-status", "join() failed");
    MC_CHECK(!h.m[k].in_run, "run-after-join", "join() returned while the monitor was running");
    MC_CHECK(!mon[k]->isRunning(), "running-after-join", "isRunning() is true after join()");
    MC_CHECK(mon[k]->getPeriod() == (setat[k] && h.m[k].runs >= setat[k] ? newper[k] : per[k]), "period", "getPeriod() at the end");
    if (!h.m[k].enabled_first) MC_CHECK(!h.m[k].runs, "run-after-disable", "a monitor disabled before it was enabled has run");
    for (int i = 1; i < h.m[k].runs && i < MAXJ; i++) MC_CHECK(h.m[k].beg[i] >= h.m[k].end[i - 1], "overlap", "run %d began before the previous one ended", i);
  }
  mc_outcome("%d enables, %d disables, %d runs", h.m[0].enables, h.m[0].disables, h.m[0].runs);
  mc_sample("%d enables, %d disables, %d runs (%d of them after disable() returned)", h.m[0].enables, h.m[0].disables, h.m[0].runs, h.m[0].after);
}
static void second(void *) { // a second controlling thread
  while (!h.m[0].constructed) mc_sleep_ns(10 * US);
  for (int n = mc_param("ops2", 1); n > 0; n--) step(0, mc_choose(3, "second thread's operation"));
}
extern "C" void mc_setup() {
  mc_private(&h, sizeof h);
  for (int k = 0; k < NM; k++) { per[k] = mc_param("period", 1000) * (k + 1); newper[k] = mc_param("newperiod", 0); setat[k] = mc_param("setat", 0); }
  dur_mode = mc_param("dur", 0);
  nothread = mc_param("nothread", 0);
  int fill = mc_param("fill", (int)0xa5a5a5a5); // storage that is being reused, whatever it held
  for (size_t i = 0; i + 4 <= sizeof mon; i += 4) memcpy((char *)mon + i, &fill, 4);
  mc_clock(START, 0);
  mc_budget(mc_param("spurious", 0), mc_param("late", 0));
  mc_spawn(controller, 0, "main");
  if (mc_param("ops2", 0)) mc_spawn(second, 0, "main2");
}
extern "C" void mc_final() {
  for (int k = 0; k < NM; k++) MC_CHECK(h.m[k].disable_done && !h.m[k].in_run, "not-finished", "the monitor did not finish");
}
extern "C" void mc_invariant() {
  MC_CHECK(mc_now() - START < (30 + 2 * mc_param("ops", 4)) * (unsigned long long)per[NM - 1] * US, "never-ends", "the monitor's thread has not ended long after disable()");
}
extern "C" const char *mc_stuck(int f) { return "never-ends"; }
} // namespace
