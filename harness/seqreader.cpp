// C07: a reader against the sequence of everything pushed, all operation
// sequences up to a depth (pushes also come in blocks so that whole laps of the
// ring fit in the depth).
#include "common.h"
#include <circularbuffer.h>
#include <reader.h>
#ifdef WITH_WRITER
#include <writer.h>
#endif
namespace mch { // so that no name of the code under test gets in the way
#ifndef BASE
#define BASE 10
#endif
#ifndef STEP // time between two events
#define STEP 1
#endif
typedef Event<long> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RTML_reader<buf_t> rd_t;
#ifndef NR
#define NR 1
#endif
static Box<buf_t> buf;
static Box<rd_t> rd[NR];
#ifdef WITH_WRITER
static Box<RTML_writer<buf_t>> wr;
#endif
static int total;          // events pushed so far: ids 1..total
static int blo = 1;        // the oldest one in the buffer; total + 1: empty
struct Model {
  int lo, hi;              // the reader knows [lo, hi)
  int synced;              // has synchronized with a non-empty buffer
  int last, flagged;       // last delivered, loss reported since
  int limbo;               // has been told that what it waits for is gone, nothing to go on with
} static m[NR];
static timespan tm_of(int id) { return (timespan)(BASE) + (timespan)(STEP) * id; }
static long val_of(int id) { return ((long)id << 32) + 3 * id; }
static int oldest() { return blo; }
static void push(int n, bool plain = false) {
  for (int i = 0; i < n; i++) {
    total++;
    ev_t e(val_of(total), tm_of(total));
#ifdef WITH_WRITER
    int st = plain ? buf->push(e) : wr->push_all(e);
#else
    int st = buf->push(e);
#endif
    MC_CHECK(st == (total - blo >= NB ? buf_t::BUFFER_OVERFLOW : buf_t::OK), "push-status", "push %d returned %d", total, st);
    if (total - blo >= NB) blo++;
  }
}
static void __attribute__((noinline)) take(int n) { // another consumer takes events away
  for (; n > 0; n--) {
    ev_t e;
    int st = buf->pull(e);
    MC_CHECK(st == (blo <= total ? buf_t::OK : buf_t::EMPTY), "buffer-pull", "pull from the buffer returned %d", st);
    if (blo <= total) blo++;
  }
}
static bool is(const ev_t &e, int id) { return e.getTime() == tm_of(id) && e.getData() == val_of(id); }
static bool lost(int r) { return m[r].synced && m[r].lo < oldest(); }
static bool taken(int r) { return lost(r) && m[r].lo + NB >= total; }
static void observe(int r) {
  if (m[r].limbo) return;
  // length() is exact while nothing was lost
  if (m[r].synced && !lost(r) && m[r].hi >= m[r].lo)
    MC_CHECK((int)rd[r]->length() == m[r].hi - m[r].lo, "length", "length()=%zu, the reader knows %d events", rd[r]->length(), m[r].hi - m[r].lo);
  if (m[r].synced && m[r].hi > m[r].lo) {
    int g = rd[r]->gap();
    // an event that another consumer took is still intact until its slot is used again
    if (taken(r)) MC_CHECK(g == rd_t::GAP || g == rd_t::NO_GAP, "gap-query", "gap()=%d", g);
    else MC_CHECK(g == (lost(r) ? rd_t::GAP : rd_t::NO_GAP), "gap-query", "gap()=%d, next event %d, oldest in the buffer %d of %d", g, m[r].lo, oldest(), total);
  }
}
static void __attribute__((noinline)) sync(int r) {
  bool l = lost(r), first = !m[r].synced;
  int g = rd[r]->synchronize();
  if (total == 0) { MC_CHECK(rd[r]->length() == 0, "length", "length()=%zu after synchronizing with an empty buffer", rd[r]->length()); return; }
  if (blo > total) { // nothing there
    if (l) { MC_CHECK(g != rd_t::NO_GAP, "missed-gap", "synchronize()=%d with an empty buffer, next event %d", g, m[r].lo); m[r].limbo = 1; m[r].flagged = 1; }
    return;
  }
  if (m[r].limbo) { first = true; m[r].limbo = 0; if (m[r].lo < blo) m[r].flagged = 1; }
  if (!first) MC_CHECK(g == (l ? rd_t::GAP : rd_t::NO_GAP), l ? "missed-gap" : "false-gap", "synchronize()=%d, next event %d, oldest in the buffer %d of %d", g, m[r].lo, oldest(), total);
  MC_CHECK(g == rd_t::GAP || g == rd_t::NO_GAP, "sync-status", "synchronize() returned %d", g);
  if (first && g == rd_t::NO_GAP) MC_CHECK(oldest() == 1, "missed-gap", "first synchronize() reports no gap, %d events are gone", oldest() - 1);
  if (l || first) { m[r].lo = oldest(); m[r].flagged = 1; }
  m[r].hi = total + 1; m[r].synced = 1;
}
static void __attribute__((noinline)) pull(int r) {
  ev_t e(-1, 42);
  int st = rd[r]->pull(e);
  if (!m[r].synced) { MC_CHECK(st == rd_t::UNAVAILABLE, "pull-unsynced", "pull before synchronize returned %d", st); return; }
  if (m[r].limbo) { // at most what is still intact, in order
    if (st != rd_t::AVAILABLE) return;
    int id = (int)((e.getTime() - (timespan)(BASE)) / (timespan)(STEP));
    MC_CHECK(id > m[r].last && id <= total && is(e, id), "pull-overwritten", "pull returned AVAILABLE (event time %ld), everything is gone", (long)e.getTime());
    m[r].last = id; m[r].lo = id + 1;
    return;
  }
  int n = m[r].hi - m[r].lo;
  if (n <= 1) { MC_CHECK(st == rd_t::UNAVAILABLE || (n > 0 && lost(r) && st == rd_t::READER_OVERFLOW), "pull-status", "pull with %d known events returned %d", n, st); return; }
  if (taken(r) && st == rd_t::AVAILABLE) ;
  else if (lost(r)) { MC_CHECK(st == rd_t::READER_OVERFLOW, "pull-overwritten", "pull of the overwritten event %d returned %d (event time %ld, oldest is %d)", m[r].lo, st, (long)e.getTime(), oldest()); return; }
  MC_CHECK(st == rd_t::AVAILABLE, "pull-status", "pull with %d known events returned %d", n, st);
  MC_CHECK(is(e, m[r].lo), "pull-value", "pull delivered time %ld data %lx, expected event %d", (long)e.getTime(), e.getData(), m[r].lo);
  if (m[r].last && m[r].lo != m[r].last + 1) MC_CHECK(m[r].flagged, "missed-gap", "event %d follows %d and no loss was reported", m[r].lo, m[r].last);
  m[r].last = m[r].lo; m[r].flagged = 0;
  m[r].lo++;
  mc_stat("delivered", 1);
}
static void __attribute__((noinline)) pop(int r) {
  ev_t e(-1, 42);
  int st = rd[r]->pop(e);
  if (!m[r].synced) { MC_CHECK(st == rd_t::UNAVAILABLE, "pop-unsynced", "pop before synchronize returned %d", st); return; }
  if (m[r].limbo) return;
  int n = m[r].hi - m[r].lo;
  if (n <= 0) { MC_CHECK(st == rd_t::UNAVAILABLE, "pop-status", "pop with no known event returned %d", st); return; }
  if (lost(r)) { // whatever it returns, an overwritten event is not AVAILABLE
    MC_CHECK(st != rd_t::AVAILABLE || is(e, m[r].hi - 1), "pop-overwritten", "pop returned AVAILABLE with time %ld, expected event %d", (long)e.getTime(), m[r].hi - 1);
    m[r].hi--;
    return;
  }
  MC_CHECK(st == rd_t::AVAILABLE, "pop-status", "pop with %d known events returned %d", n, st);
  MC_CHECK(is(e, m[r].hi - 1), "pop-value", "pop delivered time %ld data %lx, expected event %d", (long)e.getTime(), e.getData(), m[r].hi - 1);
  m[r].hi--;
}
static void __attribute__((noinline)) do_op(int op) {
#ifdef BLOCKS
  // long runs: the counts at which narrower variables wrap
  static const int blk[] = {BLOCKS};
  mc_stat("ops", 1);
  enum { NBLK = sizeof blk / sizeof *blk };
  if (op < NBLK) push(blk[op]);
  else {
    for (int n = op < 2 * NBLK ? blk[op - NBLK] : 1; n > 0; n--) if (op < 2 * NBLK) pull(0); else sync(0);
  }
  observe(0);
#else
  static const int blk[] = {1, 2, NB, NB + 1, NB + 2, 2 * NB + 2};
  mc_stat("ops", 1);
#ifdef MIX
  if (op >= 6 + 3 * NR) push(op == 6 + 3 * NR ? 1 : 2, true); // to the buffer itself
#else
  if (op >= 6 + 3 * NR) take(op == 6 + 3 * NR ? 1 : NB);
#endif
  else if (op < 6) push(blk[op]);
  else {
    int r = (op - 6) / 3;
    switch ((op - 6) % 3) { case 0: sync(r); break; case 1: pull(r); break; case 2: pop(r); break; }
  }
  for (int r = 0; r < NR; r++) observe(r);
#endif
}
#ifdef BLOCKS
static const int blk_[] = {BLOCKS};
enum { NOPS = 2 * sizeof blk_ / sizeof *blk_ + 1 };
#elif defined(WITH_REMOVE) || defined(MIX)
enum { NOPS = 6 + 3 * NR + 2 };
#else
enum { NOPS = 6 + 3 * NR };
#endif
static void body(void *) {
#ifdef BLOCKS
  static const int start[] = {0, 1, NB - 1, NB, NB + 1};
  for (int s = start[mc_choose(5, "events before the reader is created")]; s > 0; s--) push(1);
#else
  // the ring position at which the reader starts
  for (int s = mc_choose(NB + 2, "events before the reader is created"); s > 0; s--) push(1);
#endif
  for (int r = 0; r < NR; r++) { new (rd[r].raw) rd_t(*buf); m[r].lo = m[r].hi = 1; }
  for (int n = mc_param("depth", 6); n > 0; n--) do_op(mc_choose(NOPS, "op"));
}
extern "C" void mc_setup() {
  new (buf.raw) buf_t();
#ifdef WITH_WRITER
  new (wr.raw) RTML_writer<buf_t>(*buf);
#endif
  mc_spawn(body, 0, "client");
}
} // namespace
