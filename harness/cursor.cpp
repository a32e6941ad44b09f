// C09: the trace cursor against an array model, at every ring position.
#include "common.h"
#include <circularbuffer.h>
#include <reader.h>
#include <rmtld3/reader.h>
namespace mch { // so that no name of the code under test gets in the way
#ifndef BASE
#define BASE 10
#endif
#ifndef STEP // unit of time
#define STEP 1
#endif
typedef Event<int> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RMTLD3_reader<RTML_reader<buf_t>> tr_t;
static Box<buf_t> buf;
static Box<tr_t> tr;
#ifdef BIG // sparse choices around the given distances
static const long D[] = {BIG};
enum { NDIST = sizeof D / sizeof *D };
#endif
enum { SZ = NB + 1 };
static int total;               // ids 1..total; event i sits in slot (i - 1) % SZ
static int lo, hi;              // the trace's window of ids [lo, hi)
static int pos;                 // model of the cursor: a slot
static int left, synced;
static timespan tm_of(int id) { return (timespan)(BASE) + (timespan)(STEP) * (2 * id + id / 3); }
static int dt_of(int id) { return (int)(id * 0x01010101u); }
static int slot(int id) { return (id - 1) % SZ; }
static int cur() { return lo + (pos - slot(lo) + SZ) % SZ; } // id under the cursor, hi: past the end
static bool is(const ev_t &e, int id) { return e.getTime() == tm_of(id) && e.getData() == dt_of(id); }
static void push1() { total++; ev_t e(dt_of(total), tm_of(total)); buf->push(e); }
static void check(const char *op) {
  size_t c = tr->get_cursor();
  MC_CHECK((int)c == pos, "cursor", "after %s: cursor %zu, expected %d (window %d..%d)", op, c, pos, lo, hi - 1);
  if (!synced) return;
  int k = cur();
  MC_CHECK((int)tr->length() == hi - k, "length", "after %s: length()=%zu, expected %d", op, tr->length(), hi - k);
  MC_CHECK((int)tr->consumed() == k - lo, "consumed", "after %s: consumed()=%zu, expected %d", op, tr->consumed(), k - lo);
  ev_t e(-1, 1), n(-1, 1), p(-1, 1);
  if (k < hi) MC_CHECK(tr->read(e) == tr_t::AVAILABLE && is(e, k), "read", "after %s: read() at event %d gave time %ld", op, k, (long)e.getTime());
  int st = tr->read_next(n);
  MC_CHECK(st == (k + 1 < hi ? tr_t::AVAILABLE : tr_t::UNAVAILABLE), "read-next", "after %s: read_next() at event %d of %d..%d returned %d", op, k, lo, hi - 1, st);
  if (k + 1 < hi) MC_CHECK(is(n, k + 1), "read-next", "after %s: read_next() at event %d gave time %ld", op, k, (long)n.getTime());
  st = tr->read_previous(p);
  MC_CHECK(st == (k > lo ? tr_t::AVAILABLE : tr_t::UNAVAILABLE), "read-previous", "after %s: read_previous() at event %d of %d..%d (slot %d) returned %d", op, k, lo, hi - 1, pos, st);
  if (k > lo) MC_CHECK(is(p, k - 1), "read-previous", "after %s: read_previous() at event %d gave time %ld", op, k, (long)p.getTime());
  MC_CHECK((int)tr->get_cursor() == pos, "cursor-moved", "an observer moved the cursor");
}
#ifdef BIG
enum { NT = 4 * NDIST, NCUR = 2 * NDIST };
// an event at a distance from either end of the window, both included; past the end: hi
static int near(int i) { long d = D[i % NDIST]; int id = i / NDIST ? hi - (int)d : lo + (int)d; return id < lo ? lo : id > hi ? hi : id; }
#else
enum { NT = (2 * (NB + 2) + 4) * (STEP == 1 ? 1 : 2), NCUR = SZ };
#endif
static void __attribute__((noinline)) do_set(int i) {
  // instants around every event of the window, before and after it
#ifdef BIG
  timespan t = tm_of(near(i / 2)) - i % 2;
#else
  timespan t = STEP == 1 ? tm_of(lo) - 2 + i : tm_of(lo) + (timespan)(STEP) * (i / 2 - 2) - i % 2;
#endif
  if (t > tm_of(hi) + 2 * (timespan)(STEP)) return;
  int want = 0;
  for (int j = lo; j + 1 < hi; j++) if (tm_of(j) <= t && t < tm_of(j + 1)) want = j;
  int from = cur(), st = tr->set(t);
  MC_CHECK(st == (want ? tr_t::AVAILABLE : tr_t::UNAVAILABLE), "set-status", "set(%ld) from event %d returned %d; events %d..%d cover [%ld,%ld)", (long)t, from, st, lo, hi - 1, (long)tm_of(lo), (long)tm_of(hi - 1));
  if (want) {
    MC_CHECK((int)tr->get_cursor() == slot(want), "set-cursor", "set(%ld) from event %d left the cursor on slot %zu, event %d is in slot %d", (long)t, from, tr->get_cursor(), want, slot(want));
    pos = slot(want);
  } else {
    MC_CHECK(tr->get_cursor() < SZ, "set-cursor", "cursor out of range");
    pos = (int)tr->get_cursor();
    MC_CHECK(cur() <= hi, "set-cursor", "set(%ld) left the cursor outside of the trace", (long)t);
  }
  check("set");
}
static void __attribute__((noinline)) do_op(int op) {
  mc_stat("ops", 1);
  int k = cur(), st;
  if (op == 0) {
    st = tr->increment_cursor();
    MC_CHECK(st == (k < hi ? tr_t::AVAILABLE : tr_t::UNAVAILABLE), "increment", "increment_cursor() at event %d of %d..%d returned %d", k, lo, hi - 1, st);
    if (k < hi) pos = (pos + 1) % SZ;
    check("increment_cursor");
  } else if (op == 1) {
    st = tr->decrement_cursor();
    MC_CHECK(st == (k > lo ? tr_t::AVAILABLE : tr_t::UNAVAILABLE), "decrement", "decrement_cursor() at event %d of %d..%d returned %d", k, lo, hi - 1, st);
    if (k > lo) pos = (pos + SZ - 1) % SZ;
    check("decrement_cursor");
  } else if (op == 2) {
    ev_t e(-1, 1);
    st = tr->pull(e);
    MC_CHECK(st == (k + 1 < hi ? tr_t::AVAILABLE : tr_t::UNAVAILABLE), "pull", "pull() at event %d of %d..%d returned %d", k, lo, hi - 1, st);
    if (k < hi) { MC_CHECK(is(e, k), "pull", "pull() at event %d gave time %ld", k, (long)e.getTime()); pos = (pos + 1) % SZ; }
    check("pull");
  } else if (op == 3) {
    MC_CHECK(tr->reset() == tr_t::AVAILABLE, "reset", "reset() failed");
    pos = slot(lo);
    check("reset");
  } else if (op == 4) { // more events arrive
    if (!left) return;
    left--;
#ifdef BIG
    for (int n = (int)D[mc_choose(NDIST, "new events")]; n > 0; n--) push1();
#else
    for (int n = 1 + mc_choose(SZ, "new events"); n > 0; n--) push1();
#endif
    tr->synchronize();
    hi = total + 1;
    if (lo < hi - NB) lo = hi - NB;
    check("synchronize");
  } else if (op == 5) {
    size_t bad = SZ, worse = (size_t)-1;
    MC_CHECK(tr->set_cursor(bad) != tr_t::AVAILABLE && tr->set_cursor(worse) != tr_t::AVAILABLE, "set-cursor-range", "set_cursor() accepts a position outside of the ring");
    check("set_cursor out of range");
  } else if (op < 6 + NT) do_set(op - 6);
  else {
#ifdef BIG
    size_t p = slot(near(op - 6 - NT));
#else
    size_t p = op - 6 - NT;
#endif
    int id = lo + ((int)p - slot(lo) + SZ) % SZ;
    if (id > hi) return;
    MC_CHECK(tr->set_cursor(p) == tr_t::AVAILABLE, "set-cursor-range", "set_cursor(%zu) not AVAILABLE", p);
    pos = (int)p;
    check("set_cursor");
  }
}
static void body(void *) {
#ifdef BIG
  int o = (int)D[mc_choose(NDIST, "events before the trace is created")];
#else
  int o = mc_choose(SZ + 1, "events before the trace is created");
#endif
  for (; o > 0; o--) push1();
  new (tr.raw) tr_t(*buf);
  pos = 0; lo = hi = 1; // an empty trace, which has nothing to offer
  synced = 1;
  for (int i = mc_choose(3, "operations before the first synchronization"); i > 0; i--) do_op(mc_choose(4, "op"));
#ifdef BIG
  int n = (int)D[mc_choose(NDIST, "events before the first synchronization")];
  if (!n) n = 1;
#else
  int n = mc_choose(SZ + 2, "events before the first synchronization");
  bool none = !n && mc_choose(2, "a consumer took all of them");
  if (none) for (ev_t e; buf->pull(e) != buf_t::EMPTY;) ;
  if (!none && !total) n = 1;
#endif
  for (; n > 0; n--) push1();
  tr->synchronize();
  hi = total + 1;
  lo = total > NB ? total - NB + 1 : 1;
#ifndef BIG
  if (none) { lo = hi; tr->reset(); pos = slot(lo); }
#endif
  check("first synchronize");
  left = mc_param("more", 2);
  for (int d = (int)mc_param("depth", 0) - 1; d; d -= d > 0) do_op(mc_choose(6 + NT + NCUR, "op"));
}
extern "C" void mc_setup() {
  new (buf.raw) buf_t();
  int f = mc_spawn(body, 0, "client");
  if (!mc_param("depth", 0)) mc_daemon(f);
}
} // namespace
