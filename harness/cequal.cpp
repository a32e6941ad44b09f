// C03/C04: writers push events that are equal (same data, same time), or that are not
// even equal to themselves: every interleaving, the final content and the results of
// the pushes against every sequential order that agrees with real time.
#include "common.h"
#include <circularbuffer.h>
#include <writer.h>
namespace mch { // so that no name of the code under test gets in the way
#ifndef NW
#define NW 2
#endif
#ifndef NP
#define NP 3
#endif
#ifndef DATA
#define DATA int
#define VAL(c) (c)
#endif
typedef Event<DATA> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RTML_writer<buf_t> wr_t;
enum { TOT = NW * NP, MAXPRE = 8, NC = 2 };
static Box<buf_t> buf;
static Box<wr_t> w[NW];
static ev_t ev[NW];
static struct Hist { // not visible to the scheduler
  int done[TOT], before[TOT], status[TOT], cls[TOT];
  int pre[MAXPRE];
} h;
static int np[NW], pre, total, ready;
static bool is(const ev_t &e, int c) { DATA v = VAL(c); return !memcmp(&e.getData(), &v, sizeof v) && e.getTime() == 100; }
static MC_NOINST void start(int i, int c) { h.cls[i] = c; for (int j = 0; j < TOT; j++) if (h.done[j]) h.before[i] |= 1 << j; }
static MC_NOINST void finish(int i, int st) { h.done[i] = 1; h.status[i] = st; }
static void writer(void *a) {
  int wi = (int)(long)a;
  for (int k = 0; k < np[wi]; k++) {
    int i = wi * NP + k, c = mc_choose(NC, "event");
    ev_t &e = ev[wi];
    e = ev_t(VAL(c), 100);
    start(i, c);
    mc_op_begin();
    int st = w[wi]->push_all(e);
    mc_op_end();
    finish(i, st);
  }
}
static int out[NB + 1], n_out;
static bool order(int *seq, int n, int mask) {
  if (n == total) {
    int all[MAXPRE + TOT], m = 0;
    for (int i = 0; i < pre; i++) all[m++] = h.pre[i];
    for (int i = 0; i < n; i++) {
      if (h.status[seq[i]] != (m >= NB ? buf_t::BUFFER_OVERFLOW : buf_t::OK)) return false;
      all[m++] = h.cls[seq[i]];
    }
    for (int i = 0; i < n_out; i++) if (all[m - n_out + i] != out[i]) return false;
    return true;
  }
  for (int i = 0; i < TOT; i++) {
    if (!h.done[i] || mask >> i & 1 || (h.before[i] & ~mask)) continue;
    seq[n] = i;
    if (order(seq, n + 1, mask | 1 << i)) return true;
  }
  return false;
}
extern "C" void mc_setup() {
  mc_private(&h, sizeof h); mc_private(ev, sizeof ev);
  pre = mc_param("pre", 0);
  mc_clock(1000, 0);
  static const char *pn[] = {"p0", "p1", "p2"};
  for (int i = 0; i < NW; i++) { np[i] = mc_param(pn[i], NP); total += np[i]; MC_CHECK(np[i] <= NP, "setup", "-DNP too small"); }
  new (buf.raw) buf_t();
  for (int i = 0; i < NW; i++) new (w[i].raw) wr_t(*buf);
  for (int k = 0; k < pre; k++) { // some sequence of the events
    h.pre[k] = mc_param("pat", 0) >> k & 1;
    ev_t e(VAL(h.pre[k]), 100);
    w[NW - 1]->push_all(e);
  }
  static const char *nm[] = {"w0", "w1", "w2"};
  for (int i = 0; i < NW; i++) mc_spawn(writer, (void *)(long)i, nm[i]);
}
extern "C" void mc_final() {
  size_t b, t; buf->state(b, t);
  int want = total + pre < NB ? total + pre : NB, seq[TOT];
  n_out = (int)((t + NB + 1 - b) % (NB + 1));
  MC_CHECK(n_out == want && buf->length() == (size_t)want, "lost-push", "%d pushes on capacity %d leave length %d", total + pre, NB, n_out);
  char s[64]; int k = 0; s[0] = 0;
  for (int i = 0; i < n_out; i++) {
    ev_t e; buf->read(e, (b + i) % (NB + 1));
    out[i] = -1;
    for (int c = 0; c < NC; c++) if (is(e, c)) out[i] = c;
    MC_CHECK(out[i] >= 0, "torn-event", "the buffer holds an event nobody pushed");
    k += snprintf(s + k, sizeof s - k, " %d", out[i]);
  }
  MC_CHECK(order(seq, 0, 0), "no-order", "no order of the pushes gives the content%s (of kinds) and the overflows reported", s);
  mc_outcome("%s", s);
  mc_sample("final content%s", s);
}
} // namespace
