// C01 (and the sequential half of C20): every sequence of buffer operations
// against a plain bounded queue.  The state space is closed by state matching:
// the run ends when no new (buffer, model) pair is reachable (fixpoint).
#include "common.h"
#ifndef DATA
#define DATA int
#endif
#include <circularbuffer.h>
#ifdef WITH_WRITER
#include <writer.h>
#endif
namespace mch { // so that no name of the code under test gets in the way
typedef DATA data_t;
typedef Event<data_t> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
#ifndef NWR
#define NWR 3
#endif
#ifndef ND
#define ND 2
#endif
static unsigned char guard0[64];
static Box<buf_t> buf;
static unsigned char guard1[64];
#ifdef WITH_WRITER
static Box<RTML_writer<buf_t>> w[2];
static int nw;
#endif
// reference model
static int m_len, m_val[NB];
static int m_writers, m_n;
#ifdef MACRO_OPS
static int m_head;
#define M(i) m_val[(m_head + (i)) % NB]
static void drop_oldest() { m_head = (m_head + 1) % NB; m_len--; }
#else
#define M(i) m_val[i]
static void drop_oldest() { memmove(m_val, m_val + 1, sizeof(int) * (NB - 1)); m_len--; m_val[m_len] = 0; }
#endif

static const timespan times[4] = {7, (timespan)0x0123456789abcdefLL, (timespan)0x100000007LL, 3};
static data_t val(int d) {
#ifdef BIGDATA
  data_t x; memset(&x, 0, sizeof x); x.a[0] = d; x.a[sizeof(x.a) / sizeof(x.a[0]) - 1] = -d - 1; return x;
#else
  static const long v[4] = {0x11223344, -5, 0x00010000, 1};
  return (data_t)v[d];
#endif
}
#ifdef DEBUG_EVENTS
static ev_t fresh;
} // namespace: the code under test calls it
template <typename T> void dbg_event(const char *, const T &data, timespan, timespan time) {
  bool ok = !memcmp(&data, &mch::fresh.getData(), sizeof data) && time == mch::fresh.getTime();
  for (int i = 0; i <= NB && !ok; i++) { mch::ev_t e; mch::buf->read(e, i); ok = e.getData() == data && e.getTime() == time; }
  MC_CHECK(ok, "debug-event", "debug() prints an event (time %lld) that is nowhere in the buffer", (long long)time);
}
namespace mch {
#endif
static bool same(const ev_t &e, int d) { return e.getTime() == times[d] && e.getData() == val(d); }

static void check(const char *op) {
  size_t b = 99, t = 99, b2 = 99, t2 = 99;
  timespanw ts = -1, ts_t = -1;
  MC_CHECK(buf->size_util == (size_t)NB, "capacity", "the capacity reads %zu", (size_t)buf->size_util);
  MC_CHECK(buf->length() == (size_t)m_len, "length", "after %s: length()=%zu, expected %d", op, buf->length(), m_len);
  MC_CHECK(buf->state(b, t) == buf_t::OK, "state-status", "state() not OK");
  MC_CHECK(buf->state(b2, t2, ts, ts_t) == buf_t::OK, "state-status", "state(4) not OK");
  MC_CHECK(b == b2 && t == t2, "state-agree", "the two state() forms disagree: (%zu,%zu) (%zu,%zu)", b, t, b2, t2);
  MC_CHECK(b <= NB && t <= NB, "state-range", "state (%zu,%zu) out of range", b, t);
  MC_CHECK((t + NB + 1 - b) % (NB + 1) == (size_t)m_len, "state-length", "state (%zu,%zu) does not span %d", b, t, m_len);
  for (int i = 0; i < m_len; i++) {
    ev_t e;
    MC_CHECK(buf->read(e, (b + i) % (NB + 1)) == buf_t::OK, "read-status", "read(%zu) not OK", (b + i) % (NB + 1));
    MC_CHECK(same(e, M(i)), "content", "after %s: element %d from the oldest is wrong (time %lld), length %d", op, i, (long long)e.getTime(), m_len);
  }
  if (m_len) MC_CHECK(ts == times[M(0)], "state-ts", "after %s: state timestamp %lld is not the oldest event's", op, (long long)ts);
  ev_t e(val(0), 42);
  MC_CHECK(buf->read(e, NB + 1) == buf_t::OUT_OF_BOUND, "oob-read", "read(size) not OUT_OF_BOUND");
  MC_CHECK(buf->read(e, NB + 2) == buf_t::OUT_OF_BOUND, "oob-read", "read(size+1) not OUT_OF_BOUND");
  MC_CHECK(buf->read(e, (size_t)-1) == buf_t::OUT_OF_BOUND, "oob-read", "read(-1) not OUT_OF_BOUND");
  MC_CHECK(e.getTime() == 42 && e.getData() == val(0), "oob-read-touch", "out-of-bound read changed its output");
  MC_CHECK(buf->write(e, NB + 1) == buf_t::OUT_OF_BOUND, "oob-write", "write(size) not OUT_OF_BOUND");
  MC_CHECK(buf->write(e, (size_t)-1) == buf_t::OUT_OF_BOUND, "oob-write", "write(-1) not OUT_OF_BOUND");
  buf->debug();
  MC_CHECK(buf->length() == (size_t)m_len, "length-stable", "observers changed the length");
  for (int i = 0; i < 64; i++) MC_CHECK(guard0[i] == 0x5a && guard1[i] == 0xa5, "overrun", "memory around the buffer was overwritten after %s", op);
}
static void do_push(int d, int how) {
  ev_t e(val(d), times[d]);
  bool full = m_len == NB;
  int st;
#ifdef WITH_WRITER
  mc_clock(times[d], 0);
  if (how < 0) {
    st = buf->push(e);
    MC_CHECK(st == (full ? buf_t::BUFFER_OVERFLOW : m_writers > 1 ? buf_t::UNSAFE : buf_t::OK), "push-status", "push on length %d returned %d", m_len, st);
    if (full) drop_oldest();
    M(m_len) = d; m_len++;
    return;
  }
  RTML_writer<buf_t> &wr = *w[how & 1];
  if (how & 2) { st = wr.push_all(e); }
  else { e = ev_t(val(d), 0); st = wr.push(e); }
  int want = full ? buf_t::BUFFER_OVERFLOW : buf_t::OK;
#else
  st = buf->push(e);
  int want = full ? buf_t::BUFFER_OVERFLOW : m_writers > 1 ? buf_t::UNSAFE : buf_t::OK;
#endif
  MC_CHECK(st == want, "push-status", "push on length %d returned %d, expected %d", m_len, st, want);
  if (full) drop_oldest();
  M(m_len) = d; m_len++;
}
static void do_take(bool pop) {
  ev_t e(val(0), 42);
  int st = pop ? buf->pop(e) : buf->pull(e);
  int want = m_len == 0 ? buf_t::EMPTY : m_writers > 1 ? buf_t::UNSAFE : buf_t::OK;
  MC_CHECK(st == want, "take-status", "%s on length %d returned %d, expected %d", pop ? "pop" : "pull", m_len, st, want);
  if (m_len) {
    int d = pop ? M(m_len - 1) : M(0);
    MC_CHECK(same(e, d), "take-value", "%s on length %d delivered the wrong event (time %lld)", pop ? "pop" : "pull", m_len, (long long)e.getTime());
    if (!pop) drop_oldest();
    else { m_len--; M(m_len) = 0; }
  } else MC_CHECK(e.getTime() == 42 && e.getData() == val(0), "empty-touch", "%s on an empty buffer changed its output", pop ? "pop" : "pull");
}
static void do_write(int i, int d) {
  size_t b, t; buf->state(b, t);
  ev_t e(val(d), times[d]);
  MC_CHECK(buf->write(e, i) == buf_t::OK, "write-status", "write(%d) not OK", i);
  int off = (i + NB + 1 - (int)b) % (NB + 1);
  if (off < m_len) M(off) = d;
}
#ifdef WITH_WRITER
static void attach(int i) { // a writer comes, or comes again in the same memory
  if (i > nw || m_writers > 4) return;
  if (i < nw) { w[i]->~RTML_writer<buf_t>(); memset(w[i].raw, 0xdd, sizeof w[i].raw); }
  else nw++;
  new (w[i].raw) RTML_writer<buf_t>(*buf);
  m_writers++;
}
#endif
// one operation, chosen by a single number so that no dead local survives into the state
enum { BLOCK = 4 };
static int n_ops() {
#ifdef MACRO_OPS
  return 3 * BLOCK;
#else
#ifdef WITH_WRITER
  return 2 + ND + (NB + 1) + 2 + nw * 2 * ND;
#else
  return 2 + ND + (NB + 1) * ND + (NB + 1);
#endif
#endif
}
static void __attribute__((noinline)) do_op(int op) {
  mc_stat("ops", 1);
#ifdef MACRO_OPS
#ifndef REPS
#define REPS 1, NB - 1, NB, NB + 1
#endif
  static const int reps[BLOCK] = {REPS};
  for (int i = 0; i < reps[op % BLOCK]; i++) {
#ifdef WITH_WRITER
    if (op / BLOCK == 0) do_push(i % ND, nw == 2 ? i / ND % 4 : i / ND % 2 << 1); else
#else
    if (op / BLOCK == 0) do_push(i % ND, 0); else
#endif
 do_take(op / BLOCK == 1);
    MC_CHECK(buf->length() == (size_t)m_len, "length", "length()=%zu, expected %d", buf->length(), m_len);
  }
  check("block");
  return;
#endif
  if (op == 0) { do_take(false); check("pull"); return; }
  if (op == 1) { do_take(true); check("pop"); return; }
  op -= 2;
#ifdef WITH_WRITER
  // pushes to the buffer itself, too
  if (op < ND) { do_push(op, -1); check("push"); return; }
  op -= ND;
  if (op < NB + 1) { do_write(op, 1); check("write"); return; }
  op -= NB + 1;
  if (op < 2) { attach(op); check("writer attached"); return; }
  op -= 2;
  do_push(op % ND, nw == 2 ? op / ND : op / ND << 1);
  check("writer push");
#else
  if (op < ND) { do_push(op, 0); check("push"); return; }
  op -= ND;
  if (op < (NB + 1) * ND) {
    do_write(op / ND, op % ND);
    check("write");
    return;
  }
  op -= (NB + 1) * ND;
  ev_t e; MC_CHECK(buf->read(e, op) == buf_t::OK, "read-status", "read(%d) not OK", op);
  check("read");
#endif
}
static void __attribute__((noinline)) init() {
#ifdef WITH_WRITER
#ifdef MACRO_OPS
  nw = 1 + mc_choose(2, "number of writers");
#else
  nw = mc_choose(3, "number of writers");
#endif
  for (int i = 0; i < nw; i++) new (w[i].raw) RTML_writer<buf_t>(*buf);
  m_writers = nw;
#else
  m_writers = mc_choose(NWR > 16 ? NWR / 16 : NWR, "attached writers");
  if (NWR > 16) m_writers = m_writers * 16 + mc_choose(16, "and more");
  for (int i = 0; i < m_writers; i++) buf->increment_writer();
#endif
  check("construction");
}
static void body(void *) {
  init();
  for (m_n = mc_param("depth", 0) ? (int)mc_param("depth", 0) : -1; m_n; m_n -= m_n > 0) do_op(mc_choose(n_ops(), "op"));
}
extern "C" void mc_setup() {
  memset(guard0, 0x5a, sizeof guard0); memset(guard1, 0xa5, sizeof guard1);
  memset(buf.raw, 0xcc, sizeof buf.raw);
  new (buf.raw) buf_t();
#ifdef DEBUG_EVENTS
  buf->read(fresh, 0);
#endif
  int f = mc_spawn(body, 0, "client");
  if (!mc_param("depth", 0)) mc_daemon(f);
}
} // namespace
