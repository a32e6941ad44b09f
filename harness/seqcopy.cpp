// C02: assignment makes an independent snapshot.  Two buffers, every sequence of
// operations on either and assignments between them, against two plain queues.
#include "common.h"
#include <circularbuffer.h>
#ifdef WITH_WRITER
#include <writer.h>
#endif
namespace mch { // so that no name of the code under test gets in the way
#ifndef DATA
#define DATA long
#endif
typedef DATA data_t;
typedef Event<data_t> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
static Box<buf_t> buf[2];
#ifndef WRITERS // which of the buffers have one: bit 0 the first, bit 1 the second
#define WRITERS 1
#endif
#ifdef WITH_WRITER
typedef RTML_writer<buf_t> wr_t;
static Box<wr_t> wr[2];
#endif
#ifdef REPS
static const int R[] = {REPS};
enum { NREPS = sizeof R / sizeof *R };
#endif
static int m_len[2], m_arr[2][NB], m_dead, m_n;
#ifdef REPS // too long to be moved about
static int m_off[2];
static int &m_val(int k, int i) { return m_arr[k][(m_off[k] + i) % NB]; }
static void drop_first(int k) { m_off[k] = (m_off[k] + 1) % NB; m_len[k]--; }
#else
static int &m_val(int k, int i) { return m_arr[k][i]; }
static void drop_first(int k) { m_len[k]--; memmove(m_arr[k], m_arr[k] + 1, sizeof(int) * m_len[k]); m_arr[k][m_len[k]] = 0; }
#endif
static const data_t V[2] = {0x7711223344556677L, -9};
static const timespan T[2] = {5, 0x0123456789abcdefL};
static bool same(const ev_t &e, int d) { return e.getData() == V[d] && e.getTime() == T[d]; }
static void check(const char *op) {
  for (int k = 0; k < 2; k++) {
    if (m_dead && k == 0) continue;
    size_t b, t;
    MC_CHECK(buf[k]->length() == (size_t)m_len[k], "length", "after %s: buffer %d has length %zu, expected %d", op, k, buf[k]->length(), m_len[k]);
    buf[k]->state(b, t);
    MC_CHECK(b <= NB && t <= NB && (t + NB + 1 - b) % (NB + 1) == (size_t)m_len[k], "state", "after %s: buffer %d state (%zu,%zu)", op, k, b, t);
    for (int i = 0; i < m_len[k]; i++) {
      ev_t e; buf[k]->read(e, (b + i) % (NB + 1));
      MC_CHECK(same(e, m_val(k, i)), "content", "after %s: element %d of buffer %d is wrong", op, i, k);
    }
  }
}
static void __attribute__((noinline)) push(int k, int d) {
  ev_t e(V[d], T[d]);
  int st;
  bool full = m_len[k] == NB;
#ifdef WITH_WRITER
  if (WRITERS >> k & 1) st = wr[k]->push_all(e); else
#endif
  st = buf[k]->push(e);
  MC_CHECK(full ? st == buf_t::BUFFER_OVERFLOW : st == buf_t::OK || st == buf_t::UNSAFE, "push-status", "push on length %d of buffer %d returned %d", m_len[k], k, st);
  if (full) drop_first(k);
  m_len[k]++; m_val(k, m_len[k] - 1) = d;
}
static void __attribute__((noinline)) take(int k, bool pop) {
  ev_t e;
  int st = pop ? buf[k]->pop(e) : buf[k]->pull(e);
  MC_CHECK(m_len[k] ? st == buf_t::OK || st == buf_t::UNSAFE : st == buf_t::EMPTY, "take-status", "pull/pop on length %d returned %d", m_len[k], st);
  if (!m_len[k]) return;
  int d = pop ? m_val(k, m_len[k] - 1) : m_val(k, 0);
  MC_CHECK(same(e, d), "take-value", "%s of buffer %d delivered the wrong event", pop ? "pop" : "pull", k);
  if (!pop) drop_first(k);
  else { m_len[k]--; m_val(k, m_len[k]) = 0; }
}
static void __attribute__((noinline)) assign(int to, int from) {
  *buf[to] = *buf[from];
  m_len[to] = m_len[from];
  if (to == from) return;
  memcpy(m_arr[to], m_arr[from], sizeof m_arr[to]);
#ifdef REPS
  m_off[to] = m_off[from];
#endif
}
#ifdef REPS
static int reps() { return R[mc_choose(NREPS, "times")]; }
#else
static int reps() { return 1; }
#endif
static void __attribute__((noinline)) do_op(int op) {
  mc_stat("ops", 1);
  int k = op >= 5;
  switch (op) {
  case 0: case 1: case 5: case 6: for (int i = 0, n = reps(); i < n; i++) push(k, (op + i / 3) % 5 % 2); check("push"); break;
  case 2: case 7: for (int n = reps(); n > 0; n--) take(k, false); check("pull"); break;
  case 3: case 8: for (int n = reps(); n > 0; n--) take(k, true); check("pop"); break;
  case 4:
    assign(0, 1); check("first = second"); break;
  case 9: assign(1, 0); check("second = first"); break;
  case 10: assign(1, 1); check("self assignment"); break;
  case 11: // the original goes away
    assign(1, 0);
#ifdef WITH_WRITER
    if (WRITERS & 1) memset(wr[0].raw, 0xdd, sizeof wr[0].raw);
#endif
    buf[0]->~buf_t();
    memset(buf[0].raw, 0xdd, sizeof buf[0].raw); m_dead = 1; m_len[0] = 0; memset(m_arr[0], 0, sizeof m_arr[0]);
    check("original destroyed");
    break;
#ifdef WITH_WRITER
  case 12: case 13: // a writer leaves, its memory is used for something else, another one comes
    k = op - 12;
    if (!(WRITERS >> k & 1)) break;
    wr[k]->~wr_t();
    memset(wr[k].raw, 0xdd, sizeof wr[k].raw);
    check("writer destroyed");
    new (wr[k].raw) wr_t(*buf[k]);
    check("writer attached");
    break;
#endif
  }
}
static void body(void *) {
  check("construction");
  m_n = mc_param("depth", 0) ? (int)mc_param("depth", 0) : -1;
  while (m_n) {
#ifdef WITH_WRITER
    static const unsigned char ok[] = {0, 1, 2, 3, 9, 11, 12, 4, 5, 6, 7, 8, 10, 13};
    if (m_dead) do_op(ok[8 + mc_choose(6, "op")]); else do_op(ok[mc_choose(14, "op")]);
#else
    if (m_dead) do_op((5 + mc_choose(4, "op"))); else do_op(mc_choose(12, "op"));
#endif
    m_n -= m_n > 0;
  }
}
extern "C" void mc_setup() {
  for (int k = 0; k < 2; k++) new (buf[k].raw) buf_t();
#ifdef WITH_WRITER
  for (int k = 0; k < 2; k++) if (WRITERS >> k & 1) new (wr[k].raw) wr_t(*buf[k]);
#endif
  int f = mc_spawn(body, 0, "client");
  if (!mc_param("depth", 0)) mc_daemon(f);
}
} // namespace
