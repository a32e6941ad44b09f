// One fiber is stopped at any of its accesses while another writer pushes a long
// burst (any length from a list, whole laps of the ring and of narrow counters
// included), once or several times: C03 (the fiber is a writer), C08 (a reader).
#include "common.h"
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
namespace mch { // so that no name of the code under test gets in the way
typedef Event<Sym> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RTML_writer<buf_t> wr_t;
typedef RTML_reader<buf_t> rd_t;
static Box<buf_t> buf;
static Box<wr_t> wa, wb;
static Box<rd_t> rd;
enum { A_ID = 1 << 28 };
static struct Hist { int begun, done, a_lo[4], a_hi[4], a_n, ovf_b, ovf_a; int r_last, r_flag, r_n; } h;
static int na, nbursts, pre;
static long tm_of(int id) { return 1000 + mc_param("step", 10) * id; }
static int menu(int k) {
  int lo = mc_param("lo", 1), n = mc_param("count", 1);
  return lo + k < lo + n ? lo + k : 0;
}
static MC_NOINST void push_b(int n) {
  for (int i = 0; i < n; i++) {
    h.begun++;
    ev_t e(Sym(h.begun), tm_of(h.begun));
    h.ovf_b += wb->push_all(e) == buf_t::BUFFER_OVERFLOW;
    h.done++;
  }
}
static void fast(void *) {
  int n = mc_param("count", 1);
  for (int b = 0; b < nbursts; b++) {
    int m = menu(mc_choose(n, "length of the burst"));
    mc_burst(1);
    push_b(m);
    mc_burst(0);
    mc_point("after the burst");
  }
}
static MC_NOINST void a_begin(int k) { h.a_lo[k] = h.done; }
static MC_NOINST void a_end(int k, int st) { h.a_hi[k] = h.begun; h.ovf_a += st == buf_t::BUFFER_OVERFLOW; h.a_n++; }
static void slow_writer(void *) {
  for (int k = 0; k < na; k++) {
    ev_t e(Sym(A_ID + k), 5 + k);
    a_begin(k);
    int st = wa->push_all(e);
    a_end(k, st);
  }
}
static MC_NOINST void delivered(const ev_t &e) {
  int id = (int)e.getData();
  MC_CHECK(id >= 1 && id <= h.begun && e.getTime() == tm_of(id), "torn-event", "pull returned AVAILABLE with data %d time %ld: no such event was pushed", e.getData().v, (long)e.getTime());
  MC_CHECK(id > h.r_last, "order", "pull returned event %d after event %d", id, h.r_last);
  MC_CHECK(id == h.r_last + 1 || h.r_flag, "unreported-loss", "event %d follows event %d and no loss was reported", id, h.r_last);
  h.r_last = id; h.r_flag = 0; h.r_n++;
}
static int rsync() { int g = rd->synchronize(); if (g == rd_t::GAP) h.r_flag = 1; return g; }
static int rpull() {
  ev_t e; int st = rd->pull(e);
  if (st == rd_t::READER_OVERFLOW) h.r_flag = 1;
  if (st == rd_t::AVAILABLE) delivered(e);
  return st;
}
static void slow_reader(void *) {
  for (int n = mc_param("rounds", 1); n > 0; n--) {
    rsync();
    for (int k = mc_param("pulls", 2); k > 0; k--) if (rpull() != rd_t::AVAILABLE) break;
  }
}
extern "C" void mc_setup() {
  mc_private(&h, sizeof h);
  na = mc_param("na", 1); nbursts = mc_param("bursts", 1); pre = mc_param("pre", 0);
  new (buf.raw) buf_t(); new (wa.raw) wr_t(*buf); new (wb.raw) wr_t(*buf); new (rd.raw) rd_t(*buf);
  push_b(pre);
#ifdef READER
  if (pre) rsync();
  mc_spawn(slow_reader, 0, "reader");
#else
  mc_spawn(slow_writer, 0, "a");
#endif
  mc_spawn(fast, 0, "b");
}
extern "C" void mc_final() {
#ifdef READER
  int during = h.r_n, syncs = 0;
  for (; syncs < 3; syncs++) { int st; rsync(); while ((st = rpull()) == rd_t::AVAILABLE) ; if (st == rd_t::UNAVAILABLE) break; }
  MC_CHECK(syncs < 3, "never-available", "a quiescent reader keeps being refused");
  MC_CHECK(NB == 1 || h.begun < 2 || h.r_last == h.begun - 1, "not-caught-up", "the reader got up to event %d of %d", h.r_last, h.begun);
  mc_sample("%d events pushed, %d delivered while they were", h.begun, during);
#else
  size_t b, t; buf->state(b, t);
  int total = h.done + h.a_n, want = total < NB ? total : NB, n = (int)((t + NB + 1 - b) % (NB + 1));
  MC_CHECK(n == want && buf->length() == (size_t)want, "lost-push", "%d pushes on capacity %d leave length %d", total, NB, n);
  // newest first: the events of b from the last one backwards, those of a in their order
  int nb = h.done, ka = h.a_n;
  for (int i = n - 1; i >= 0; i--) {
    ev_t e; buf->read(e, (b + i) % (NB + 1));
    int d = (int)e.getData();
    if (d >= A_ID) {
      MC_CHECK(ka > 0 && d == A_ID + ka - 1 && e.getTime() == 5 + ka - 1, "torn-event", "unexpected event %x time %ld", d, (long)e.getTime());
      ka--;
      MC_CHECK(nb >= h.a_lo[ka] && nb <= h.a_hi[ka], "real-time-order", "the event pushed while %d to %d others had been is stored after %d of them", h.a_lo[ka], h.a_hi[ka], nb);
    } else {
      MC_CHECK(nb > 0 && d == nb && e.getTime() == tm_of(nb), "lost-push", "event %d (time %ld) is in the place of event %d", d, (long)e.getTime(), nb);
      nb--;
    }
  }
  if (ka > 0) MC_CHECK(n == NB && nb >= h.a_lo[ka - 1], "lost-push", "push %d of the other writer is missing", ka);
  int wantovf = total > NB ? total - NB : 0;
  MC_CHECK(h.ovf_a + h.ovf_b == wantovf, "overflow-count", "%d pushes reported an overflow, %d happened", h.ovf_a + h.ovf_b, wantovf);
  mc_outcome("%d", h.a_n);
  mc_sample("%d pushes of one writer around %d of the other", h.done, h.a_n);
#endif
  mc_stat("ops", h.done + h.a_n);
}
extern "C" const char *mc_stuck(int) { return "blocked-operation"; }
} // namespace
