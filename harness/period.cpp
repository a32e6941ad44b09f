// C17: release times of the monitor's runs on a virtual clock, every interleaving,
// every choice of run times, every instant of a period change, with spurious wake-ups.
#include "common.h"
#include <periodicmonitor.h>
namespace mch { // so that no name of the code under test gets in the way
#define US 1000ull
#define START 1700000000999000777ull
typedef unsigned long long u64;
enum { MAXJ = 40, MAXP = 4, NMON = 2 };
static struct Hist {
  u64 en0, en1, dis0, dis1, beg[MAXJ], end[MAXJ];
  u64 pt[MAXP], pt1[MAXP], pv[MAXP]; int prun[MAXP], np; // period changes: called, returned, value
  int runs, in_run, dis;
} hist[NMON];
static u64 pers[NMON], newper; // the other monitor keeps its period
#define h (hist[k])
#define per (pers[k])
static int setat, ndur, nmon;
class Mon : public RTML_monitor<'p', 'e', 'r'> {
public:
  int k;
  Mon(useconds_t p, int i) : RTML_monitor(p, SCHED_OTHER, 0), k(i) {}
  MC_NOINST void begin() {
    MC_CHECK(h.runs < MAXJ, "too-many-runs", "%d runs", h.runs);
    h.beg[h.runs++] = mc_now(); h.in_run = 1; mc_stat("ops", 1);
  }
  MC_NOINST void finish() { h.end[h.runs - 1] = mc_now(); h.in_run = 0; }
  void run() {
    begin();
    static const int q[] = {0, 5, 11, 23, 137};
    u64 d = per * US * q[mc_choose(ndur, "run time")] / 10;
    if (setat == h.runs && k == 0) change(newper);
    if (d) mc_sleep_ns(d);
    finish();
  }
  void change(u64 v) {
    if (h.np < MAXP) { h.pt[h.np] = mc_now(); h.pv[h.np] = v; h.pt1[h.np] = ~0ull; h.prun[h.np] = h.in_run && mc_self() != 0 ? h.runs : 0; h.np++; }
    setPeriod((useconds_t)v);
    h.pt1[h.np - 1] = mc_now();
    MC_CHECK(getPeriod() == v, "period", "getPeriod() is %u after setPeriod(%llu)", getPeriod(), v);
  }
};
static Box<Mon> mons[NMON];
static void controller(void *) {
  for (int k = 0; k < nmon; k++) {
    new (mons[k].raw) Mon((useconds_t)per, k);
    MC_CHECK(mons[k]->getPeriod() == per, "period", "getPeriod() is %u after construction with %llu", mons[k]->getPeriod(), per);
  }
  for (int i = 0; i < nmon; i++) {
    int k = nmon - 1 - i;
    mc_sleep_ns(50 * US * mc_choose(3, "delay before enable"));
    h.en0 = mc_now(); mons[k]->enable(); h.en1 = mc_now();
  }
  int k = 0;
  if (mc_param("change", 0)) {
    u64 at = per * US * mc_choose(mc_param("change", 0), "time of the period change") / 2 + per * US / 3;
    mc_sleep_ns(at);
    mons[k]->change(newper);
  }
  if (mc_param("again", 0)) mons[k]->enable();
  mc_sleep_ns(per * US * mc_param("periods", 3) + per * US / 7);
  for (k = 0; k < nmon; k++) { h.dis0 = mc_now(); mons[k]->disable(); h.dis = 1; h.dis1 = mc_now(); }
  for (k = 0; k < nmon; k++) MC_CHECK(mons[k]->join() == 0, "join-status", "join() failed");
}
extern "C" void mc_setup() {
  mc_private(&hist, sizeof hist);
  pers[0] = mc_param("period", 1000); pers[1] = mc_param("other", 0); nmon = pers[1] ? 2 : 1;
  newper = mc_param("newperiod", 1700); setat = mc_param("setat", 0); ndur = mc_param("dur", 4);
  memset(&mons, 0xa5, sizeof mons);
  mc_clock(START, 0);
  mc_budget(mc_param("spurious", 0), mc_param("late", 0));
  mc_spawn(controller, 0, "main");
}
static u64 okmask(int k, int n, u64 *p) { // periods that may apply to release n
  // in force when the wait for release n began, or changed to while waiting
  u64 from = n ? h.end[n - 1] : h.en0, to = n < h.runs ? h.beg[n] : ~0ull;
  int c = 0; u64 cur = per;
  for (int i = 0; i < h.np; i++) if (h.prun[i] ? n >= h.prun[i] : h.pt1[i] < from) cur = h.pv[i];
  p[c++] = cur;
  for (int i = 0; i < h.np; i++) if (!h.prun[i] && h.pt1[i] >= from && h.pt[i] <= to && h.pv[i] != cur) p[c++] = h.pv[i];
  return c;
}
static int bad; static char why[200];
static bool follow(int k, int n, u64 rel) { // rel: release of run n-1 (n==0: activation)
  u64 p[MAXP + 1]; int c = okmask(k, n, p);
  for (int i = 0; i < c; i++) {
    u64 r = rel + p[i] * US, b = n && h.end[n - 1] > r ? h.end[n - 1] : r;
    if (n < h.runs) {
      if (h.beg[n] != b) { if (n >= bad) { bad = n; snprintf(why, sizeof why, "monitor %d: run %d began at +%llu us, its release is at +%llu us (period %llu us)", k, n + 1, (h.beg[n] - START) / US, (b - START) / US, p[i]); } continue; }
      if (follow(k, n + 1, r)) return true;
    } else {
      if (b >= h.dis0) return true; // nothing was skipped
      bad = n + 1; snprintf(why, sizeof why, "monitor %d: run %d was due at +%llu us, disable() came at +%llu us and it never began", k, n + 1, (b - START) / US, (h.dis0 - START) / US);
    }
  }
  return false;
}
extern "C" void mc_invariant() { int k = 0; MC_CHECK(mc_now() - START < 60ull * (per > newper ? per : newper) * US + 10000 * US, "never-ends", "the monitor's thread does not end"); }
static void check(int k) {
  u64 other = k ? per : newper; // the period it may be changed to
  u64 pmin = per < other && (setat || h.np) ? other < per ? other : per : per;
  if (h.np && other < pmin) pmin = other;
  for (int i = 0; i < h.runs; i++) {
    MC_CHECK(h.beg[i] >= h.en0 + (i + 1) * pmin * US, "too-early", "monitor %d: run %d began %llu us after activation", k, i + 1, (h.beg[i] - h.en0) / US);
    MC_CHECK(!i || h.beg[i] >= h.end[i - 1], "overlap", "monitor %d: run %d overlaps the previous one", k, i + 1);
  }
  if (!mc_param("late", 0) && h.runs) {
    u64 p0[MAXP + 1]; int c = okmask(k, 0, p0);
    bool ok = false; bad = -1;
    for (int i = 0; i < c && !ok; i++) {
      u64 s = h.beg[0] - p0[i] * US; // the activation instant the first run implies
      if (s < h.en0 || s > h.en1 + 1000 * US) { if (bad < 0) { bad = 0; snprintf(why, sizeof why, "monitor %d: the first run began %llu us after enable() with period %llu us", k, (h.beg[0] - h.en0) / US, per); } continue; }
      ok = follow(k, 0, s);
    }
    MC_CHECK(ok, "release", "%s", why);
  }
  if (!mc_param("late", 0)) MC_CHECK(h.runs || h.dis0 - h.en1 < (per > other ? per : other) * US + 1000 * US, "never-runs", "monitor %d: no run within a period", k);
  mc_outcome("monitor %d: %d runs", k, h.runs);
  mc_sample("monitor %d: %d runs, first %llu us and last %llu us after enable()", k, h.runs, h.runs ? (h.beg[0] - h.en0) / US : 0, h.runs ? (h.beg[h.runs - 1] - h.en0) / US : 0);
}
extern "C" void mc_final() { for (int k = 0; k < nmon; k++) check(k); }
extern "C" const char *mc_stuck(int f) { return "never-ends"; }
} // namespace
