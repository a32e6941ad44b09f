// C08: readers running concurrently with writers, every interleaving of every
// shared access.  Whatever is delivered as AVAILABLE is an event that was pushed,
// intact, in buffer order, once; every event passed over was reported as a loss.
#include "common.h"
#include <circularbuffer.h>
#include <writer.h>
#include <reader.h>
namespace mch { // so that no name of the code under test gets in the way
#ifndef NW
#define NW 1
#endif
#ifndef NP
#define NP 6
#endif
#ifndef NR
#define NR 1
#endif
typedef Event<Sym> ev_t;
typedef RTML_buffer<ev_t, NB> buf_t;
typedef RTML_writer<buf_t> wr_t;
typedef RTML_reader<buf_t> rd_t;
static Box<buf_t> buf;
static Box<wr_t> w[NW];
static Box<rd_t> rd[NR];
static ev_t ev[NW];
enum { MAXPRE = 8, TOT = NW * NP + MAXPRE, MAXDEL = 16 };
// ids: 1..pre before the start, then MAXPRE + 1 + wi * NP + k
struct Hist {
  long time[TOT + 1];     // 0: not pushed (yet)
  signed char cur[NW];    // id being pushed
  int npush;              // pushes started
  struct { unsigned char id[MAXDEL], flag[MAXDEL]; unsigned char n, flagged, synced, popped; } r[NR];
} static h;
static int np[NW], pre;
static signed char under_way[NR][NW], pops[NR]; // pushes that had not returned when the reader synchronized; pops since then

static MC_NOINST long time_of(int id) {
  for (int i = 0; i < NW; i++) if (h.cur[i] == id) return ev[i].getTime();
  return h.time[id];
}
static MC_NOINST bool valid(const ev_t &e) {
  int id = (int)e.getData();
  if (id < 1 || id > TOT) return false;
  bool started = h.time[id] != 0;
  for (int i = 0; i < NW; i++) started |= h.cur[i] == id;
  return started && time_of(id) == e.getTime();
}
static void writer(void *a) {
  int wi = (int)(long)a;
  for (int k = 0; k < np[wi]; k++) {
    int id = MAXPRE + 1 + wi * NP + k;
    ev[wi] = ev_t(Sym(id), 0);
    h.cur[wi] = id; h.npush++;
    w[wi]->push(ev[wi]);
    h.cur[wi] = 0;
    h.time[id] = ev[wi].getTime();
  }
#ifdef DESTROY
  w[wi]->~wr_t();
  memset(w[wi].raw, 0xdd, sizeof(wr_t));
#endif
}
static MC_NOINST void deliver(int r, const ev_t &e, const char *how) {
  auto &R = h.r[r];
  MC_CHECK(valid(e), "torn-event", "%s returned AVAILABLE with data %d time %ld: no such event was pushed", how, e.getData().v, (long)e.getTime());
  int id = (int)e.getData();
  for (int i = 0; i < R.n; i++) MC_CHECK(R.id[i] != id, "duplicate", "%s returned event %d twice", how, id);
  if (R.n) MC_CHECK(time_of(R.id[R.n - 1]) < e.getTime(), "order", "%s returned event %d (time %ld) after event %d (time %ld)", how, id, (long)e.getTime(), R.id[R.n - 1], time_of(R.id[R.n - 1]));
  if (R.n < MAXDEL) { R.id[R.n] = id; R.flag[R.n] = R.flagged; R.n++; }
  R.flagged = 0;
  mc_stat("delivered", 1);
}
static int rsync(int r) {
  int g = rd[r]->synchronize();
  if (g == rd_t::GAP) h.r[r].flagged = 1;
#ifdef WITH_POP
  pops[r] = 0;
  for (int i = 0; i < NW; i++) under_way[r][i] = h.cur[i];
#endif
  MC_CHECK(g == rd_t::GAP || g == rd_t::NO_GAP || g == rd_t::UNKNOWN_GAP, "sync-status", "synchronize() returned %d", g);
  return g;
}
static int rpull(int r) {
  ev_t e;
  int st = rd[r]->pull(e);
  if (st == rd_t::READER_OVERFLOW) h.r[r].flagged = 1;
  if (st == rd_t::AVAILABLE) deliver(r, e, "pull");
  MC_CHECK(st != rd_t::READ_ERROR, "read-error", "pull() returned READ_ERROR");
  return st;
}
#ifdef WITH_POP
static MC_NOINST int pushing(int r) { int n = 0; for (int i = 0; i < NW; i++) n += h.cur[i] && h.cur[i] == under_way[r][i]; return n; }
static int rpop(int r) {
  ev_t e;
  int busy = pushing(r) || pops[r] > 0 || rd[r]->length() < 2;
  pops[r]++;
  int st = rd[r]->pop(e);
  if (st == rd_t::AVAILABLE) {
    // known: the newest slot is delivered although its push, under way since the reader synchronized, has not stored it
    // yet, a pop moves the end of the window before it looks for losses, and with one event left a lap cannot be told
    bool bad = !valid(e);
    int id = (int)e.getData();
    if (!bad) for (int i = 0; i < h.r[r].n; i++) bad |= h.r[r].id[i] == id;
    if (!bad && h.r[r].n) bad = time_of(h.r[r].id[h.r[r].n - 1]) >= e.getTime();
    MC_CHECK(!bad, busy ? "pop-during-push" : "pop-value", "pop returned AVAILABLE with data %d time %ld: not an event that was pushed and is still to be read", id, (long)e.getTime());
  }
  MC_CHECK(st != rd_t::READ_ERROR, "read-error", "pop() returned READ_ERROR");
  return st;
}
#endif
static void reader(void *a) {
  int r = (int)(long)a;
#ifdef FREE
  for (int n = mc_param("steps", 4); n > 0; n--)
    switch (mc_choose(2
#ifdef WITH_POP
    + 1
#endif
    , "reader op")) {
    case 0: rsync(r); break;
    case 1: rpull(r); break;
#ifdef WITH_POP
    case 2: rpop(r); break;
#endif
    }
#else
  for (int n = mc_param("rounds", 1); n > 0; n--) {
    rsync(r);
    for (int k = mc_param("pulls", 2); k > 0; k--) if (rpull(r) != rd_t::AVAILABLE) break;
  }
#endif
}
extern "C" void mc_setup() {
  mc_private(&h, sizeof h);
  mc_private(under_way, sizeof under_way);
  mc_private(pops, sizeof pops);
  mc_private(ev, sizeof ev);
  const long tick = mc_param("tick", 1);
  mc_clock(1000 * tick, tick);
  new (buf.raw) buf_t();
  for (int i = 0; i < NW; i++) new (w[i].raw) wr_t(*buf);
  pre = mc_param("pre", 0);
  for (int i = 0; i < NR; i++) new (rd[i].raw) rd_t(*buf);
  for (int i = 0; i < pre; i++) {
    ev_t e(Sym(i + 1), 0); mc_clock((900 + i) * tick, 0); w[0]->push(e); h.time[i + 1] = e.getTime();
    if (i + 1 == mc_param("presync", 0)) for (int r = 0; r < NR; r++) rsync(r);
  }
  mc_clock(1000 * tick, tick);
  static const char *pn[] = {"p0", "p1", "p2"};
  static const char *nm[] = {"w0", "w1", "w2"};
  for (int i = 0; i < NW; i++) { np[i] = mc_param(pn[i], 2); mc_spawn(writer, (void *)(long)i, nm[i]); }
  static const char *rn[] = {"r0", "r1"};
  for (int i = 0; i < NR; i++) mc_spawn(reader, (void *)(long)i, rn[i]);
}
extern "C" void mc_final() {
  // total order of everything pushed
  int ord[TOT], n = 0;
  for (int i = 1; i <= TOT; i++) if (h.time[i]) {
    int p = n++;
    while (p > 0 && h.time[ord[p - 1]] > h.time[i]) { ord[p] = ord[p - 1]; p--; }
    ord[p] = i;
  }
  for (int r = 0; r < NR; r++) {
    // quiescent: the reader catches up
    int during = h.r[r].n, syncs = 0;
    for (; syncs < 3; syncs++) {
      int g = rsync(r), st;
      while ((st = rpull(r)) == rd_t::AVAILABLE) ;
      if (st == rd_t::UNAVAILABLE) break;
    }
    MC_CHECK(syncs < 3, "never-available", "a quiescent reader keeps being refused");
    auto &R = h.r[r];
    int k = 0;
    for (int i = 0; i < R.n; i++) {
      int skipped = 0;
      while (k < n && ord[k] != R.id[i]) k++, skipped++;
      MC_CHECK(k < n, "order", "event %d was delivered out of order", R.id[i]);
      k++;
      MC_CHECK(!skipped || R.flag[i], "unreported-loss", "%d events before event %d were passed over without a report", skipped, R.id[i]);
      if (n <= NB) MC_CHECK(!skipped, "lost-event", "%d events before event %d were passed over, the buffer never overflowed", skipped, R.id[i]);
    }
    if (n) MC_CHECK(k == n - 1, "not-caught-up", "after synchronizing at rest the reader got %d events of %d in order", k, n);
    mc_outcome("%d/%d", during, R.n);
    mc_sample("reader %d: %d events delivered while the writers ran, %d in all, of %d pushed", r, during, R.n, n);
  }
}
extern "C" const char *mc_stuck(int) { return "blocked-operation"; }
} // namespace
