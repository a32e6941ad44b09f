// C18: a generated monitor's body (synchronize, set(t), evaluate) running concurrently
// with the instrumented program's pushes, every interleaving of every shared access.
// A definitive verdict must be the one the reference semantics gives on the events
// pushed so far (some prefix between "completed before synchronize() was called" and
// "begun before it returned"), whenever the monitor's own gap() reports no loss.
#include "common.h"
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
#include <rmtld3/reader.h>
#include "formulas_ref.h"
namespace mch { // so that no name of the code under test gets in the way
#ifndef NW
#define NW 1
#endif
#ifndef NP
#define NP 3
#endif
#ifndef NM // monitors
#define NM 1
#endif
#ifdef SYMDATA
typedef Event<Sym> ev_t;
#else
typedef Event<int> ev_t;
#endif
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RTML_writer<buf_t> wr_t;
typedef RMTLD3_reader<RTML_reader<buf_t>> tr_t;
typedef Prop<1> A;
typedef Prop<2> B;
typedef Less<Dur<A, 2>, Const<2>> Dur2;
typedef tv (*evalf)(tr_t &, timespan &);
typedef tv (*reff)(const Ref &, int, timespan);
struct Form { const char *name; evalf ev; reff rf; };
#define F1(...) { #__VA_ARGS__, [](tr_t &a, timespan &t) -> tv { return __VA_ARGS__::eval(a, t); }, [](const Ref &r, int c, timespan t) -> tv { return __VA_ARGS__::ref(r, c, t); } }
static const Form forms[] = {F1(A), F1(Until<A, B, 3>), F1(Always<Or<A, B>, 3>), F1(EvEq<B, 2>), F1(EvUnb<B>), F1(Less<Dur<A, 3>, Const<2>>), F1(Since<A, B, 4>), F1(Hist<A, 2>), F1(PastEq<A, 1>), F1(Until<True_, And<B, Hist<Or<A, B>, 2>>, 4>)
#ifdef NESTED // one operator inside another: where the inner one leaves the cursor
  , F1(Until<Or<A, EvEq<B, 2>>, And<B, PastEq<A, 2>>, 4>), F1(Since<EvEq<B, 2>, And<A, Until<A, B, 3>>, 4>), F1(Less<Dur<EvEq<B, 2>, 3>, Dur<Since<A, B, 4>, 3>>), F1(And<EvUnb<And<B, PastEq<A, 4>>>, Until<Dur2, B, 3>>), F1(PastEq<EvUnb<B>, 2>), F1(Always<Since<Hist<A, 2>, EvEq<B, 2>, 4>, 3>)
#endif
};
enum { NF = sizeof forms / sizeof *forms, MAXPRE = 4, TOT = MAXPRE + NW * NP, MAXV = 4 };
static Box<buf_t> buf;
static Box<wr_t> w[NW];
static Box<tr_t> tr[NM];
static ev_t ev[NW];
static struct Log {
  long tm[TOT]; signed char sym[TOT]; unsigned char done[TOT], begun[TOT]; // by id
  struct { signed char f, v; unsigned char d0[TOT], b1[TOT]; long start; timespan t; bool gapped; } ver[NM][MAXV];
  int nv[NM];
} h;
static int np[NW], pre, f_lo, f_hi, same, chosen = -1; // same: the monitors evaluate the same formula
static timespan qt;
static MC_NOINST int ndone() { int n = 0; for (int i = 0; i < TOT; i++) n += h.done[i]; return n; }
static MC_NOINST int nbegun() { int n = 0; for (int i = 0; i < TOT; i++) n += h.begun[i]; return n; }
static MC_NOINST void b(int id, int sym) { h.begun[id] = 1; h.sym[id] = sym; }
static MC_NOINST void d(int id, const ev_t &e) { h.tm[id] = e.getTime(); h.done[id] = 1; }
static void writer(void *a) {
  int wi = (int)(long)a;
  for (int k = 0; k < np[wi]; k++) {
    int id = MAXPRE + wi * NP + k;
    ev[wi] = ev_t(1 + mc_choose(mc_param("nsym", 2), "symbol"), 0);
    b(id, (int)ev[wi].getData());
    w[wi]->push(ev[wi]);
    d(id, ev[wi]);
  }
}
static MC_NOINST void snap0(int m, int f, timespan at) { auto &V = h.ver[m][h.nv[m]]; V.f = f; V.t = at; memcpy(V.d0, h.done, sizeof h.done); }
static MC_NOINST void snap1(int m) { memcpy(h.ver[m][h.nv[m]].b1, h.begun, sizeof h.begun); }
static MC_NOINST void got(int m, tv v, long start, bool g) {
  auto &V = h.ver[m][h.nv[m]];
  MC_CHECK(v == T_TRUE || v == T_FALSE || v == T_UNKNOWN, "invalid-verdict", "%s gives %d", forms[V.f].name, (int)v);
  V.v = v; V.start = start; V.gapped = g; h.nv[m]++;
}
static void monitor(void *a) {
  int m = (int)(long)a, f = chosen;
  if (f < 0) f = f_lo + mc_choose(f_hi - f_lo + 1, "formula");
  if (same) chosen = f;
  timespan at = qt + 2 * mc_choose(mc_param("nt", 1), "instant");
  tr_t &trace = *tr[m];
  for (int n = mc_param("rounds", 1); n > 0; n--) {
    snap0(m, f, at);
    trace.synchronize();
    snap1(m);
    trace.reset();
    ev_t first; trace.read(first);
    timespan t = at;
    if (trace.set(t) != tr_t::AVAILABLE) continue;
    tv v = forms[f].ev(trace, t);
    bool g = trace.gap() != tr_t::NO_GAP;
    got(m, v, first.getTime(), g);
  }
}
extern "C" void mc_setup() {
  mc_private(&h, sizeof h);
  mc_private(ev, sizeof ev);
  mc_private(&chosen, sizeof chosen);
  mc_private(tr, sizeof tr);
  new (buf.raw) buf_t();
  for (int i = 0; i < NW; i++) new (w[i].raw) wr_t(*buf);
  for (int m = 0; m < NM; m++) new (tr[m].raw) tr_t(*buf);
  pre = mc_param("pre", 2);
  f_lo = mc_param("f0", 0); f_hi = mc_param("f1", NF - 1);
  same = mc_param("same", 0);
  int pat = mc_param("pat", 10);
  int extra = mc_param("extra", 0); // events long gone
  for (int i = 0; i < extra; i++) { mc_clock(500 + i, 0); ev_t e(3, 0), x; w[0]->push(e); buf->pull(x); }
  for (int i = 0; i < pre; i++) { mc_clock(996 + 2 * i, 0); ev_t e(1 + (pat >> i & 1), 0); b(i, 1 + (pat >> i & 1)); w[0]->push(e); d(i, e); }
  qt = mc_param("t", 997);
  mc_clock(1000, 1);
  static const char *pn[] = {"p0", "p1"};
  static const char *nm[] = {"w0", "w1"};
  if (mc_param("still", 0)) mc_private(&buf, sizeof buf); // nobody pushes: only what the monitors share between them matters
  for (int i = 0; i < NW; i++) { np[i] = mc_param(pn[i], 2); mc_spawn(writer, (void *)(long)i, nm[i]); }
  static const char *mn[] = {"monitor", "monitor2"};
  for (int m = 0; m < NM; m++) mc_spawn(monitor, (void *)(long)m, mn[m]);
}
extern "C" void mc_final() {
  int ord[TOT], n = 0;
  for (int i = 0; i < TOT; i++) if (h.done[i]) {
    int p = n++;
    while (p > 0 && h.tm[ord[p - 1]] > h.tm[i]) { ord[p] = ord[p - 1]; p--; }
    ord[p] = i;
  }
  for (int m = 0; m < NM; m++) for (int k = 0; k < h.nv[m]; k++) {
    auto &V = h.ver[m][k];
    if (V.gapped) { mc_stat("gap", 1); continue; }
    if (V.v == T_UNKNOWN) { mc_stat("unknown", 1); continue; }
    mc_stat("definitive", 1);
    int s = 0; while (s < n && h.tm[ord[s]] != V.start) s++;
    MC_CHECK(s < n, "window", "the monitor's window begins with an event of time %ld, nobody pushed that", V.start);
    int lo = 0, hi = 0; // prefix lengths
    for (int i = 0; i < n; i++) { if (V.d0[ord[i]]) lo = i + 1; if (V.b1[ord[i]]) hi = i + 1; }
    bool ok = false;
    for (int len = lo; len <= hi && !ok; len++) {
      Ref r; r.n = 0;
      for (int i = s; i < len; i++) { r.tm[r.n] = h.tm[ord[i]]; r.sym[r.n++] = h.sym[ord[i]]; }
      int c = -1; for (int j = 0; j + 1 < r.n; j++) if (r.tm[j] <= V.t && V.t < r.tm[j + 1]) c = j;
      ok = c >= 0 && forms[(int)V.f].rf(r, c, V.t) == V.v;
    }
    if (!ok) {
      char b[200]; int q = 0; for (int i = 0; i < n; i++) q += snprintf(b + q, sizeof b - q, " %d@%ld", h.sym[ord[i]], h.tm[ord[i]]);
      mc_fail("verdict", "%s at %ld is %s for the monitor, on no prefix (%d..%d events) of%s from %ld on is it", forms[(int)V.f].name, (long)V.t, nm((tv)V.v), lo, hi, b, V.start);
    }
    mc_sample("%s at %ld: %s, with %d to %d of %d events pushed", forms[(int)V.f].name, (long)V.t, nm((tv)V.v), lo, hi, n);
  }
  mc_outcome("%d: %d %d", h.ver[0][0].f, h.nv[0] ? h.ver[0][0].v : 9, h.nv[NM - 1] > NM % 2 ? h.ver[NM - 1][NM % 2].v : 9);
}
extern "C" const char *mc_stuck(int) { return "blocked-operation"; }
} // namespace
