// C11-C15, C22: every trace of up to EV events over a small alphabet of symbols and
// gaps, at every ring position; after every event every formula of the set is
// evaluated at every instant and compared with the reference semantics, with its own
// earlier definitive verdicts, and with a second, differently placed ring.
#include "common.h"
#include <circularbuffer.h>
#include <reader.h>
#include <rmtld3/reader.h>
#include "formulas_ref.h"
namespace mch { // so that no name of the code under test gets in the way
#ifndef BASE
#define BASE 0L
#endif
#ifndef DT
#define DT int
#endif
// what a property is about: verdicts, their revision, side effects, dependence on placement
#ifdef NO_VERDICT
#define VERDICT(...) (void)0
#else
#define VERDICT(...) MC_CHECK(__VA_ARGS__)
#endif
#ifdef NO_REVISED
#define REVISED(...) (void)0
#else
#define REVISED(...) MC_CHECK(__VA_ARGS__)
#endif
#ifdef NO_SIDE
#define SIDE(...) (void)0
#else
#define SIDE(...) MC_CHECK(__VA_ARGS__)
#endif
typedef Event<DT> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RMTLD3_reader<RTML_reader<buf_t>> tr_t;
#ifndef MINIGAP
#define MINIGAP 1
#endif
// observed symbols; propositions 1 and 2 are tested, 3 is neither (and unknown for Tri), 513 == 1 modulo 512
#ifndef SYMS
#define SYMS 1, 2, 3, 513
#endif
#ifndef PB
#define PB 2
#endif
static const long SYM[] = {SYMS};
typedef Prop<1> A;
typedef Prop<PB> B;
#include FSET
typedef tv (*evalf)(tr_t &, timespan &);
typedef int (*reff)(const Ref &, int, timespan); // bit set of permitted verdicts
struct Form { const char *name; evalf ev; reff rf; int mono; };
#define F1(...) { #__VA_ARGS__, [](tr_t &a, timespan &t) -> tv { return __VA_ARGS__::eval(a, t); }, [](const Ref &r, int c, timespan t) -> int { return 1 << __VA_ARGS__::ref(r, c, t); }, 1 }
#define F0(...) { #__VA_ARGS__, [](tr_t &a, timespan &t) -> tv { return __VA_ARGS__::eval(a, t); }, [](const Ref &r, int c, timespan t) -> int { return 1 << __VA_ARGS__::ref(r, c, t); }, 0 }
// mono 2: instants in between may be examined later on
#define FW(...) { #__VA_ARGS__, [](tr_t &a, timespan &t) -> tv { return __VA_ARGS__::eval(a, t); }, [](const Ref &r, int c, timespan t) -> int { return __VA_ARGS__::may(r, c, t); }, 2 }
static const Form forms[] = {FORMULAS};
enum { NF = sizeof forms / sizeof *forms };
#ifdef DURATIONS
typedef duration (*devalf)(tr_t &, timespan &);
typedef duration (*dreff)(const Ref &, int, timespan);
struct DForm { const char *name; devalf ev; dreff rf; bool (*either)(const Ref &, int, timespan); };
#define D1(...) { #__VA_ARGS__, [](tr_t &a, timespan &t) -> duration { return __VA_ARGS__::eval(a, t); }, [](const Ref &r, int c, timespan t) -> duration { return __VA_ARGS__::ref(r, c, t); }, [](const Ref &r, int c, timespan t) -> bool { return __VA_ARGS__::either(r, c, t); } }
static const DForm dforms[] = {DURATIONS};
#endif
static Box<buf_t> buf;
static Box<tr_t> tr;
#ifdef PLACEMENT
static Box<buf_t> buf2;    // the same events from slot 0 on
static Box<tr_t> tr2;
#endif
static Ref all;            // everything pushed since the trace began (ids 0..)
static unsigned char verdict[NF][MAXT]; // first definitive verdict + 1
static int first;          // oldest id still in the buffer
static int ev_left;

static MC_NOINST bool same_bytes(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }
static const char *show(const Ref &r) {
  static char s[256]; int k = 0; s[0] = 0;
  for (int i = 0; i < r.n && k < 200; i++) {
    int n = 1;
#ifdef LONG_TRACE
    while (i + n < r.n && r.sym[i + n] == r.sym[i] && r.tm[i + n] - r.tm[i + n - 1] == UNIT) n++;
#endif
    if (n > 2) k += snprintf(s + k, sizeof s - k, " %dx", n);
    else n = 1;
    k += snprintf(s + k, sizeof s - k, "%s%ld@%ld", n > 2 ? "" : " ", r.sym[i], (long)r.tm[i]);
    i += n - 1;
  }
  return s;
}
#ifdef LONG_TRACE
static timespan inst[MAXT];
static int ninst;
static timespan instant(int i) { return inst[i]; }
#else
enum { ninst = MAXT };
static timespan instant(int i) { return BASE + i * TSTEP; }
#endif
#ifdef OTHER_TRACE
// some other trace, evaluated now and then: it must not matter
static Box<buf_t> buf3;
static Box<tr_t> tr3;
static void other_symbols() {
  for (size_t i = 0; i <= NB; i++) {
    ev_t e, o; buf->read(e, i);
    o = ev_t((e.getData() + 1) % 3, e.getTime());
    buf->write(o, i);
  }
}
#endif
static void __attribute__((noinline)) evaluate() {
  static Ref w; memset(&w, 0, sizeof w);
  w.n = all.n - first;
  for (int i = 0; i < w.n; i++) { w.tm[i] = all.tm[first + i]; w.sym[i] = all.sym[first + i]; }
  static Box<buf_t> before; memcpy(before.raw, buf.raw, sizeof before.raw);
  for (int ti = 0; ti < ninst; ti++) {
    timespan t = instant(ti);
    int c = -1;
    for (int j = 0; j + 1 < w.n; j++) if (w.tm[j] <= t && t < w.tm[j + 1]) c = j;
    timespan tt = t;
    if (c < 0) continue;
    // the way a generated monitor does it: synchronize, set(t), evaluate
    int st = tr->set(tt);
    size_t cur = tr->get_cursor();
    ev_t e; int rs = tr->read(e);
    VERDICT(st == tr_t::AVAILABLE, "set", "set(%ld) not AVAILABLE on%s", (long)t, show(w));
    VERDICT(e.getTime() == w.tm[c], "set", "set(%ld) is at event time %ld on%s", (long)t, (long)e.getTime(), show(w));
#ifdef PLACEMENT
    int st2 = tr2->set(tt);
    ev_t e2; int rs2 = tr2->read(e2);
    SIDE(st == st2 && rs == rs2 && e.getTime() == e2.getTime() && e.getData() == e2.getData(), "placement", "set(%ld) depends on the place in the ring on%s", (long)t, show(w));
#endif
    for (int f = 0; f < NF; f++) {
#ifdef OTHER_TRACE
      // at the same instant when other symbols were in the ring
      other_symbols(); forms[f].ev(*tr, tt); memcpy(buf.raw, before.raw, sizeof before.raw);
      tt = t; tr->set_cursor(cur);
#endif
      tv v = forms[f].ev(*tr, tt);
      mc_stat("ops", 1);
      SIDE(tt == t, "time-changed", "%s changed the instant it was asked about", forms[f].name);
      SIDE(tr->get_cursor() == cur, "cursor-changed", "%s at %ld moved the cursor on%s", forms[f].name, (long)t, show(w));
      tt = t; tr->set_cursor(cur);
#ifndef NO_VERDICT
      int want = forms[f].rf(w, c, t);
#endif
      VERDICT(want >> v & 1, "verdict", "%s at %ld is %s, should be %s%s%s on%s%s", forms[f].name, (long)t, nm(v), want & 1 ? "true " : "", want & 2 ? "false " : "", want & 4 ? "unknown" : "", show(w), first ? " (older events overwritten)" : "");
#ifndef NO_SIDE
#ifdef OTHER_TRACE
      { timespan t3 = BASE + UNIT; tr3->set(t3); forms[f].ev(*tr3, t3); }
#endif
      tv v2 = forms[f].ev(*tr, tt);
      SIDE(v2 == v, "not-repeatable", "%s at %ld gives %s and then %s on%s", forms[f].name, (long)t, nm(v), nm(v2), show(w));
#ifdef PLACEMENT
      v2 = forms[f].ev(*tr2, tt);
      SIDE(v2 == v, "placement", "%s at %ld gives %s, elsewhere in the ring %s on%s", forms[f].name, (long)t, nm(v), nm(v2), show(w));
#endif
#endif
      if (!forms[f].mono || v == T_UNKNOWN) {
        if (forms[f].mono && verdict[f][ti]) mc_stat("forgotten", 1); // the history it rested on is gone
        continue;
      }
      REVISED(!verdict[f][ti] || verdict[f][ti] == v + 1, forms[f].mono == 2 ? "revised-in-between" : "revised", "%s at %ld was %s before and is %s on%s", forms[f].name, (long)t, nm((tv)(verdict[f][ti] - 1)), nm(v), show(w));
#ifndef NO_REVISED
      verdict[f][ti] = v + 1;
#endif
      mc_stat("definitive", 1);
    }
#ifdef DURATIONS
    for (unsigned f = 0; f < sizeof dforms / sizeof *dforms; f++)
      for (int c0 = 0; c0 <= c; c0++) { // also from earlier cursors
#ifdef LONG_TRACE
        if (c0 > 1 && c0 < c - 1) c0 = c0 < c / 2 ? c / 2 : c - 1;
#endif
        size_t cc = (cur + NB + 1 - (c - c0)) % (NB + 1);
        tr->set_cursor(cc);
#ifdef OTHER_TRACE
        other_symbols(); dforms[f].ev(*tr, tt); memcpy(buf.raw, before.raw, sizeof before.raw);
        tt = t; tr->set_cursor(cc);
#endif
        duration d = dforms[f].ev(*tr, tt), want = dforms[f].rf(w, c0, t);
        mc_stat("ops", 1);
        if (dforms[f].either(w, c0, t)) want.second = d.second;
        VERDICT(d.second == want.second, "duration-known", "%s at %ld is %s, should be %s on%s", dforms[f].name, (long)t, d.second ? "unknown" : "known", want.second ? "unknown" : "known", show(w));
        VERDICT(d.second || d.first == want.first, "duration", "%s at %ld is %lld, should be %lld on%s", dforms[f].name, (long)t, (long long)d.first, (long long)want.first, show(w));
        SIDE(tr->get_cursor() == cc && tt == t, "cursor-changed", "%s at %ld moved the cursor on%s", dforms[f].name, (long)t, show(w));
        tt = t; tr->set_cursor(cc);
#ifndef NO_SIDE
#ifdef OTHER_TRACE
        { timespan t3 = BASE + UNIT; tr3->set(t3); dforms[f].ev(*tr3, t3); }
#endif
        duration d2 = dforms[f].ev(*tr, tt);
        SIDE(d2.second == d.second && (d.second || d2.first == d.first), "not-repeatable", "%s at %ld gives %lld and then %lld on%s", dforms[f].name, (long)t, (long long)d.first, (long long)d2.first, show(w));
#ifdef PLACEMENT
        size_t k2 = tr2->get_cursor(), c2 = (k2 + NB + 1 - (c - c0)) % (NB + 1);
        tr2->set_cursor(c2);
        d2 = dforms[f].ev(*tr2, tt);
        SIDE(d2.second == d.second && (d.second || d2.first == d.first), "placement", "%s at %ld gives %lld, elsewhere in the ring %lld on%s", dforms[f].name, (long)t, (long long)d.first, (long long)d2.first, show(w));
        tr2->set_cursor(k2);
#endif
#endif
        tr->set_cursor(cur);
      }
#endif
  }
  SIDE(same_bytes(before.raw, buf.raw, sizeof before.raw), "buffer-changed", "evaluation changed the buffer");
  // leave the cursor where the next round does not depend on it
  tr->reset();
#ifdef PLACEMENT
  tr2->reset();
#endif
  mc_stat("traces", 1);
  if (!ev_left) mc_sample("trace%s", show(w));
}
static void sync_all() {
  tr->synchronize(); tr->reset();
#ifdef PLACEMENT
  tr2->synchronize(); tr2->reset();
#endif
}
static void add(long sym, timespan t) {
  ev_t e((DT)sym, t);
  buf->push(e);
#ifdef PLACEMENT
  buf2->push(e);
#endif
  all.tm[all.n] = t; all.sym[all.n] = sym; all.n++;
  if (all.n - first > NB) first++;
}
#ifdef LONG_TRACE
// blocks of equal events, hundreds of them, at an instant each
static void mark(timespan t) {
  static const long off[] = {-1, 0, 1};
  for (long o : off) if (ninst < MAXT && t + o * UNIT >= BASE) inst[ninst++] = t + o * UNIT;
}
static void body(void *) {
  static const int offs[] = {0, 255, NB - 2};
  static const int lens[] = {LENS};
  for (int o = offs[mc_choose(NOFF, "ring position")]; o > 0; o--) { ev_t e((DT)1, 0), x; buf->push(e); buf->pull(x); }
  new (tr.raw) tr_t(*buf);
  timespan now = BASE;
  for (int b = 0; b < BLOCKS; b++) {
    long sym = SYM[mc_choose(NSYM, "symbol")];
    int n = lens[mc_choose(sizeof lens / sizeof *lens, "events")];
    mark(now);
    for (int i = 0; i < n; i++) { add(sym, now); now += UNIT; }
  }
  mark(now - UNIT);
  for (int i = 1; i < ninst; i++) for (int j = i; j > 0 && inst[j - 1] > inst[j]; j--) { timespan x = inst[j]; inst[j] = inst[j - 1]; inst[j - 1] = x; }
  sync_all();
  evaluate();
}
#else
static void body(void *) {
  // ring position: events long gone, pulled by a consumer
  for (int o = mc_choose(NOFF, "ring position"); o > 0; o--) { ev_t e((DT)1, 0), x; buf->push(e); buf->pull(x); }
  new (tr.raw) tr_t(*buf);
#ifdef PLACEMENT
  new (tr2.raw) tr_t(*buf2);
#endif
  timespan now = BASE + UNIT * mc_choose(FIRST, "time of the first event");
  ev_left = EV - 1;
  add(SYM[mc_choose(NSYM, "first symbol")], now);
  sync_all();
  evaluate();
  for (; ev_left > 0;) {
    ev_left--;
    int x = mc_choose(NSYM * NGAP, "next event: symbol and gap");
    now += UNIT * (MINIGAP + x / NSYM);
    add(SYM[x % NSYM], now);
    sync_all();
    evaluate();
  }
}
#endif
extern "C" void mc_setup() {
  new (buf.raw) buf_t();
#ifdef OTHER_TRACE
  new (buf3.raw) buf_t();
  for (int i = 0; i < 4 && i < NB; i++) { ev_t e((DT)(1 + i % 2), BASE + UNIT * 2 * i); buf3->push(e); }
  new (tr3.raw) tr_t(*buf3); tr3->synchronize(); tr3->reset();
#endif
#ifdef PLACEMENT
  new (buf2.raw) buf_t();
#endif
  mc_spawn(body, 0, "client");
}
} // namespace
