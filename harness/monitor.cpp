// C18: the whole library at work: a program pushing events through a writer, a
// periodic monitor (its own task thread) evaluating a formula, and main enabling and
// disabling it, on a virtual clock, every interleaving.
#include "common.h"
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
#include <rmtld3/reader.h>
#include <periodicmonitor.h>
#ifndef NP
#define NP 4
#endif
#define US 1000ull
#undef UNIT
#define UNIT 400000L // formulas in units of 400 us; the monitor's period is 1 ms
#include "formulas_ref.h"
namespace mch { // so that no name of the code under test gets in the way
typedef Event<int> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RTML_writer<buf_t> wr_t;
typedef RMTLD3_reader<RTML_reader<buf_t>> tr_t;
typedef Prop<1> A;
typedef Prop<2> B;
typedef FORMULA Fm;
#define START 1000000000L
static Box<buf_t> buf;
static Box<wr_t> w;
static Box<tr_t> tr;
static ev_t ev;
static struct Log { int n, done; long tm[NP + 2]; int sym[NP + 2]; int first; int rounds, overwritten; } h;
static timespan t0;
static MC_NOINST void b(int s) { h.sym[h.n++] = s; }
static MC_NOINST void d(const ev_t &e) { h.tm[h.done++] = e.getTime(); }
static MC_NOINST int nd() { return h.done; }
static MC_NOINST int nb() { return h.n; }
static MC_NOINST bool ok(tv v, int lo, int hi) {
  for (int len = lo; len <= hi; len++) for (int f = len > NB ? len - NB : 0; f >= 0; f--) {
    Ref r; r.n = 0;
    for (int i = f; i < len && i < h.done; i++) { r.tm[r.n] = h.tm[i]; r.sym[r.n++] = h.sym[i]; }
    int c = -1; for (int j = 0; j + 1 < r.n; j++) if (r.tm[j] <= t0 && t0 < r.tm[j + 1]) c = j;
    if (c >= 0 && Fm::ref(r, c, t0) == v) return true;
  }
  return false;
}
class Mon : public RTML_monitor<'e', '2', 'e'> {
public:
  three_valued_type out = T_UNKNOWN;
  Mon(useconds_t p) : RTML_monitor(p, SCHED_OTHER, 0) {}
  MC_NOINST void round(int lo, int hi, tv v) {
    h.rounds++;
    mc_stat("ops", 1);
    if (v != T_UNKNOWN && hi <= h.done && nb() <= NB) MC_CHECK(ok(v, lo, hi), "verdict", "round %d gives %s, on no prefix of %d to %d events is it", h.rounds, nm(v), lo, hi);
  }
  void run() {
    int lo = nd();
    tr->synchronize();
    int hi = nb();
    if (tr->set(t0) == tr_t::AVAILABLE) { out = Fm::eval(*tr, t0); round(lo, hi, out); }
  }
};
static Box<Mon> mon;
static MC_NOINST int produced() { return h.done == NP; }
static void program(void *) {
  for (int k = 0; k < NP; k++) {
    mc_sleep_ns(100 * US * (1 + 5 * mc_choose(mc_param("ngap", 2), "time until the next event")));
    int s = 1 + mc_choose(2, "symbol");
    ev = ev_t(s, 0);
    b(s);
    w->push(ev);
    d(ev);
  }
}
static void controller(void *) {
  new (mon.raw) Mon(1000);
  mon->enable();
  while (!produced()) mc_sleep_ns(500 * US);
  mc_sleep_ns(2500 * US);
  mon->disable();
  MC_CHECK(mon->join() == 0, "join-status", "join() failed");
}
extern "C" void mc_setup() {
  mc_private(&h, sizeof h);
  mc_private(&ev, sizeof ev);
  mc_private(&tr, sizeof tr);
  mc_clock(START, 0);
  new (buf.raw) buf_t();
  new (w.raw) wr_t(*buf);
  new (tr.raw) tr_t(*buf);
  t0 = START + mc_param("t", 700) * (long)US;
  mc_budget(mc_param("spurious", 0), 0);
  mc_spawn(controller, 0, "main");
  mc_spawn(program, 0, "program");
}
extern "C" void mc_final() {
  // at the end the monitor has seen everything
  Ref r; r.n = 0;
  for (int i = 0; i < h.done; i++) { r.tm[r.n] = h.tm[i]; r.sym[r.n++] = h.sym[i]; }
  int c = -1; for (int j = 0; j + 1 < r.n; j++) if (r.tm[j] <= t0 && t0 < r.tm[j + 1]) c = j;
  tv want = c < 0 ? T_UNKNOWN : Fm::ref(r, c, t0);
  MC_CHECK(h.rounds > 0 || c < 0, "never-evaluated", "the monitor never evaluated its formula");
  if (NP <= NB) MC_CHECK(mon->out == want, "final-verdict", "the monitor's verdict is %s, the trace's is %s", nm(mon->out), nm(want));
  mc_outcome("%s rounds=%d", nm(mon->out), h.rounds);
  mc_sample("verdict %s after %d evaluations", nm(mon->out), h.rounds);
}
extern "C" void mc_invariant() { MC_CHECK(mc_now() < START + 60000 * US, "never-ends", "the monitor's thread does not end"); }
extern "C" const char *mc_stuck(int) { return "never-ends"; }
} // namespace
