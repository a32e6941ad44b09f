// C03/C04/C05/C06: several writers pushing concurrently, every interleaving of
// every shared access, against "some sequential order consistent with real time".
#include "common.h"
#include <circularbuffer.h>
#include <writer.h>
namespace mch { // so that no name of the code under test gets in the way
#ifndef NW
#define NW 2
#endif
#ifndef NP
#define NP 2
#endif
typedef Event<Sym> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RTML_writer<buf_t> wr_t;
static Box<buf_t> buf;
static Box<wr_t> w[NW];
static ev_t ev[NW];
#ifdef MIX // odd writers keep their own timestamps
#define DOPUSH(wi, e) (wi % 2 ? w[wi]->push_all(e) : w[wi]->push(e))
#define OWNTIME(wi) (wi % 2)
#elif defined(PUSH_ALL)
#define DOPUSH(wi, e) w[wi]->push_all(e)
#define OWNTIME(wi) 1
#else
#define DOPUSH(wi, e) w[wi]->push(e)
#define OWNTIME(wi) 0
#endif
#ifdef PUSH_ALL
#define PUSH push_all
#else
#define PUSH push
#endif
enum { TOT = NW * NP, MAXPRE = 8 };
// history (not visible to the scheduler)
struct Hist {
  int done[TOT + 1];      // op completed
  int before[TOT + 1];    // bitmask of ops completed when this one started
  int started;            // bitmask
  int status[TOT + 1];
  long time[TOT + 1];
  uint64_t t0[NW]; // clock at the call
} static h;
static int np[NW], pre, total;
static size_t exp_b[TOT + MAXPRE + 1], exp_t[TOT + MAXPRE + 1], exp_n[TOT + MAXPRE + 1];
static long pre_time[MAXPRE];

static int id_of(int wi, int k) { return wi * NP + k; } // 0..TOT-1
static MC_NOINST int done_mask() { int m = 0; for (int i = 0; i < TOT; i++) if (h.done[i]) m |= 1 << i; return m; }
static MC_NOINST void start(int i) { h.before[i] = done_mask(); h.started |= 1 << i; h.t0[i / NP] = mc_now(); }
static MC_NOINST void finish(int i, int st, long t) { h.done[i] = 1; h.status[i] = st; h.time[i] = t;
  if (OWNTIME(i / NP)) MC_CHECK(t == 100 + i, "own-time", "push_all changed the timestamp of event %d from %d to %ld", i + 1, 100 + i, t);
  else MC_CHECK((uint64_t)t >= h.t0[i / NP] && (uint64_t)t <= mc_now(), "time-of-push", "event %d pushed between %ld and %ld carries time %ld", i + 1, (long)h.t0[i / NP], (long)mc_now(), t);
  h.t0[i / NP] = 0;
}

static void writer(void *a) {
  int wi = (int)(long)a;
  for (int k = 0; k < np[wi]; k++) {
    int i = id_of(wi, k);
    ev_t &e = ev[wi];
    e = ev_t(Sym(i + 1), OWNTIME(wi) ? 100 + i : i % 2 ? 0x7fffffffffff0000L : 0); // (push overwrites any time there is)
    start(i);
    mc_op_begin();
    int st = DOPUSH(wi, e);
    mc_op_end();
    MC_CHECK(e.getData().v == i + 1, "event-changed", "push changed the data of the event it was given");
    finish(i, st, e.getTime());
#ifdef REBORN // leaves, and comes back in the same memory for its next event
    if (k + 1 < np[wi]) {
      w[wi]->~wr_t();
      memset(w[wi].raw, 0xdd, sizeof(wr_t));
      new (w[wi].raw) wr_t(*buf);
    }
#endif
  }
#ifdef DESTROY
  w[wi]->~wr_t();
  memset(w[wi].raw, 0xdd, sizeof(wr_t));
#endif
}
static int bits(int m) { return __builtin_popcount(m); }
static void MC_NOINST obs_check(int c0, int c1, size_t b, size_t t, size_t n, int what) {
  for (int c = c0; c <= c1; c++)
    if (what ? (exp_n[c] == n) : (exp_b[c] == b && exp_t[c] == t)) return;
  if (what) mc_fail("observer-length", "length() returned %zu while between %d and %d events had been pushed (capacity %d)", n, c0, c1, NB);
  mc_fail("observer-state", "state() returned (%zu,%zu) while between %d and %d events had been pushed", b, t, c0, c1);
}
static void observer(void *) {
  for (int k = 0; k < mc_param("obs", 0); k++) {
    int c0 = pre + bits(done_mask());
    size_t b, t;
    buf->state(b, t);
    obs_check(c0, pre + bits(h.started), b, t, 0, 0);
    c0 = pre + bits(done_mask());
    size_t n = buf->length();
    obs_check(c0, pre + bits(h.started), 0, 0, n, 1);
  }
}
extern "C" void mc_setup() {
  mc_private(&h, sizeof h);
  mc_private(ev, sizeof ev);
  pre = mc_param("pre", 0);
  mc_clock(1000, 1);
  static const char *pn[] = {"p0", "p1", "p2", "p3"};
  for (int i = 0; i < NW; i++) { np[i] = mc_param(pn[i], NP); MC_CHECK(np[i] <= NP, "setup", "-DNP too small"); total += np[i]; }
  // what the same code does sequentially: bottom/top/length after c pushes
  {
    static Box<buf_t> sb; static Box<wr_t> sw;
    new (sb.raw) buf_t(); new (sw.raw) wr_t(*sb);
    for (int c = 0; c <= pre + total; c++) {
      sb->state(exp_b[c], exp_t[c]); exp_n[c] = sb->length();
      MC_CHECK(exp_n[c] == (size_t)(c < NB ? c : NB), "sequential", "sequential length after %d pushes is %zu", c, exp_n[c]);
      ev_t e(Sym(1 + c), 0);
      mc_clock(500 + c, 1);
      sw->PUSH(e);
    }
    memset(sb.raw, 0, sizeof sb); memset(sw.raw, 0, sizeof sw);
  }
  mc_clock(900, 1);
  new (buf.raw) buf_t();
  for (int i = 0; i < NW; i++) new (w[i].raw) wr_t(*buf);
  for (int i = 0; i < pre; i++) { ev_t e(Sym(1000 + i), 900 + i); mc_clock(900 + i, 1); pre_time[i] = 900 + i; w[mc_param("prew", 0) % NW]->PUSH(e); }
  mc_clock(mc_param("now", 1000), mc_param("tick", 1));
  if (mc_param("clock", 0)) mc_clock_choice(1);
  static const char *nm[] = {"w0", "w1", "w2", "w3"};
  for (int i = 0; i < NW; i++) mc_spawn(writer, (void *)(long)i, nm[i]);
  if (mc_param("obs", 0)) mc_spawn(observer, 0, "observer");
}
static const char *order(int *a, int n) {
  static char s[128]; int k = 0; s[0] = 0;
  for (int i = 0; i < n; i++) k += snprintf(s + k, sizeof s - k, " %d", a[i]);
  return s;
}
extern "C" void mc_final() {
  size_t b, t, b2, t2; timespanw ts, ts_t;
  buf->state(b, t);
  int want = total + pre < NB ? total + pre : NB;
  int ids[NB + 1];
  int n = (int)((t + NB + 1 - b) % (NB + 1));
  MC_CHECK(n == want && buf->length() == (size_t)want, "lost-push", "%d pushes on capacity %d leave length %d (length()=%zu)", total + pre, NB, n, buf->length());
  MC_CHECK(b == exp_b[total + pre] && t == exp_t[total + pre], "final-state", "state (%zu,%zu) differs from the sequential one", b, t);
  buf->state(b2, t2, ts, ts_t);
  long last = 0;
  for (int i = 0; i < n; i++) {
    ev_t e; buf->read(e, (b + i) % (NB + 1));
    int d = (int)e.getData();
    if (i == 0) MC_CHECK(ts == e.getTime(), "state-ts", "state timestamp is not that of the oldest event");
    bool isnew = d >= 1 && d <= TOT && h.done[d - 1];
    bool isold = d >= 1000 && d < 1000 + pre;
    MC_CHECK(isnew || isold, "torn-event", "buffer holds an event nobody pushed (%d)", d);
    long tm = isnew ? h.time[d - 1] : pre_time[d - 1000];
    MC_CHECK(e.getTime() == tm, "stored-time", "event %d carries time %ld, pushed with %ld", d, (long)e.getTime(), tm);
    int own = isnew ? OWNTIME((d - 1) / NP) : 0;
    if (!own) { MC_CHECK(tm >= last, "time-order", "timestamps decrease in buffer order: %ld after %ld", tm, last); last = tm; }
    ids[i] = isnew ? d - 1 : d;
    for (int j = 0; j < i; j++) MC_CHECK(ids[j] != ids[i], "duplicate", "event %d is in the buffer twice", d);
  }
  int ovf = 0;
  for (int i = 0; i < TOT; i++) {
    if (!h.done[i]) continue;
    MC_CHECK(h.status[i] == buf_t::OK || h.status[i] == buf_t::BUFFER_OVERFLOW, "status", "push returned %d", h.status[i]);
    ovf += h.status[i] == buf_t::BUFFER_OVERFLOW;
    for (int j = 0; j < TOT; j++) { // j completed before i started
      if (!h.done[j] || !(h.before[i] >> j & 1)) continue;
      int pi = -1, pj = -1;
      for (int k = 0; k < n; k++) { if (ids[k] == i) pi = k; if (ids[k] == j) pj = k; }
      MC_CHECK(!(pj >= 0 && pi < 0), "real-time-order", "event %d was kept but the later event %d was not; buffer:%s", j, i, order(ids, n));
      MC_CHECK(!(pj >= 0 && pi >= 0 && pj > pi), "real-time-order", "event %d pushed before %d but stored after it; buffer:%s", j, i, order(ids, n));
      MC_CHECK(!(h.status[j] == buf_t::BUFFER_OVERFLOW && h.status[i] == buf_t::OK), "status-order", "push %d overflowed, the later push %d did not", j, i);
    }
  }
  for (int k = 0; k < n; k++) // old events only before new ones, and in order
    for (int l = k + 1; l < n; l++) {
      MC_CHECK(!(ids[l] >= 1000 && ids[k] < 1000), "real-time-order", "an earlier event is stored after a concurrent one");
      MC_CHECK(!(ids[l] >= 1000 && ids[k] >= 1000 && ids[k] > ids[l]), "real-time-order", "earlier events out of order");
    }
  int wantovf = total + pre > NB ? total + pre - NB : 0;
  int preovf = pre > NB ? pre - NB : 0;
  MC_CHECK(ovf == wantovf - preovf, "overflow-count", "%d pushes reported an overflow, %d happened", ovf, wantovf - preovf);
  mc_outcome("%s ovf=%d", order(ids, n), ovf);
  mc_sample("%d writers, final content (ids)%s, overflows %d", NW, order(ids, n), ovf);
#ifdef DESTROY
  for (int i = 0; i < NW; i++) new (w[i].raw) wr_t(*buf);
#endif
  // still usable: keep pushing sequentially
  mc_clock_choice(0);
  for (int k = 0; k < NB + 1; k++) {
    mc_clock(5000 + k, 0);
    ev_t e(Sym(500 + k), 5000 + k);
    int st = w[k % NW]->PUSH(e);
    int full = total + pre + k >= NB;
    MC_CHECK(st == (full ? buf_t::BUFFER_OVERFLOW : buf_t::OK), "later-push", "a later sequential push returned %d", st);
    buf->state(b, t);
    ev_t r; buf->read(r, (t + NB) % (NB + 1));
    MC_CHECK(r.getData().v == 500 + k && r.getTime() == 5000 + k, "later-push", "a later sequential push is not the newest event");
  }
}
extern "C" const char *mc_stuck(int f) {
  // Known cause (C04): more pushes are published in the buffer's state than have been
  // completed, i.e. some writer was suspended between publishing and storing its event
  size_t b, t; buf->state(b, t);
  int fin = pre + bits(done_mask()), begun = pre + bits(h.started);
  for (int c = fin + 1; c <= begun; c++)
    if (b == exp_b[c] && t == exp_t[c]) return "blocked-behind-unstored-push";
  return "blocked-operation";
}
} // namespace
