// C19: events compare by time, are equal iff time and data are, and keep their values.
#include "common.h"
#include <event.h>
namespace mch { // so that no name of the code under test gets in the way
#ifndef DATA
#define DATA int
#endif
typedef Event<DATA> ev_t;
static const timespan TM[] = {0, 1, 2, 0x7fffffffL, 0x80000000L, 0xffffffffL, 0x100000000L, 0x100000001L, 1700000000000000000L, 1700000000000000001L, (timespan)-1L, (timespan)-1700000000000000000L};
static const long DV[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x10001, -1, (long)0x100000001L};
enum { NT = sizeof TM / sizeof *TM, ND = sizeof DV / sizeof *DV };
static void body(void *) {
  timespan t1 = TM[mc_choose(NT, "t1")], t2 = TM[mc_choose(NT, "t2")];
  DATA d1 = (DATA)DV[mc_choose(ND, "d1")], d2 = (DATA)DV[mc_choose(ND, "d2")];
  const ev_t a(d1, t1), b(d2, t2);
  mc_stat("ops", 1);
#define C(x, y) MC_CHECK((bool)(x) == (bool)(y), #x, #x " with t1=%ld t2=%ld d1=%ld d2=%ld is %d", (long)t1, (long)t2, (long)d1, (long)d2, (int)(bool)(x))
  C(a < b, t1 < t2); C(a <= b, t1 <= t2); C(a > b, t1 > t2); C(a >= b, t1 >= t2);
  C(a == b, t1 == t2 && d1 == d2); C(a != b, !(t1 == t2 && d1 == d2));
  C(a == a, true); C(a != a, false);
  C(a < t2, t1 < t2); C(a <= t2, t1 <= t2); C(a > t2, t1 > t2); C(a >= t2, t1 >= t2); C(a == t2, t1 == t2); C(a != t2, t1 != t2);
  C(t1 < b, t1 < t2); C(t1 <= b, t1 <= t2); C(t1 > b, t1 > t2); C(t1 >= b, t1 >= t2); C(t1 == b, t1 == t2); C(t1 != b, t1 != t2);
  C(a.getTime() == t1, true); C(a.getData() == d1, true);
  ev_t e; C(e.getTime() == 0, true); C(e.getData() == DATA(), true);
  e = &a; C(e == a, true); C(e.getTime() == t1 && e.getData() == d1, true);
  e = b; C(e == b, true);
  e.set(d1, t1); C(e.getTime() == t1 && e.getData() == d1, true);
  e.setTime(t2); C(e.getTime() == t2 && e.getData() == d1, true);
  e.setData(d2); C(e.getTime() == t2 && e.getData() == d2, true);
  C(a.getTime() == t1 && a.getData() == d1, true);
  ev_t f(a); C(f == a, true);
  mc_sample("t1=%ld t2=%ld d1=%ld d2=%ld", (long)t1, (long)t2, (long)d1, (long)d2);
}
extern "C" void mc_setup() { mc_spawn(body, 0, "client"); }
} // namespace
