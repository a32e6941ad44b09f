// C20: timespec arithmetic on every combination of boundary values.
#include "common.h"
#include <sys/types.h>
#include <time_compat.h>
namespace mch { // so that no name of the code under test gets in the way
typedef struct timespec ts_t;
static const long SEC[] = {0, 1, 2, 59, 0x7fffffffL, 0x80000000L, 0xffffffffL, 0x100000000L, 1700000000L};
static const long NS[] = {0, 1, 2, 999, 1000, 1001, 499999999L, 500000000L, 500000001L, 999999998L, 999999999L};
enum { NSEC = sizeof SEC / sizeof *SEC, NNS = sizeof NS / sizeof *NS };
typedef __int128 big;
static big val(const ts_t &t) { return (big)t.tv_sec * 1000000000 + t.tv_nsec; }
static void pairs() {
  ts_t a, b, r;
  a.tv_sec = SEC[mc_choose(NSEC, "a.sec")]; a.tv_nsec = NS[mc_choose(NNS, "a.nsec")];
  b.tv_sec = SEC[mc_choose(NSEC, "b.sec")]; b.tv_nsec = NS[mc_choose(NNS, "b.nsec")];
  mc_stat("ops", 1);
#define C(x, key) MC_CHECK(x, key, "%s fails for (%ld,%ld) (%ld,%ld)", #x, (long)a.tv_sec, (long)a.tv_nsec, (long)b.tv_sec, (long)b.tv_nsec)
#define NORMAL(t) ((t).tv_nsec >= 0 && (t).tv_nsec < 1000000000L)
  timespecadd(&a, &b, &r); C(NORMAL(r) && val(r) == val(a) + val(b), "add");
  timespecsub(&a, &b, &r); C(NORMAL(r) && val(r) == val(a) - val(b), "sub");
  ts_t x = a; timespecadd(&x, &b, &x); C(NORMAL(x) && val(x) == val(a) + val(b), "add-in-place");
  timespecsub(&x, &b, &x); C(x.tv_sec == a.tv_sec && x.tv_nsec == a.tv_nsec, "sub-undoes-add");
  x = b; timespecadd(&a, &x, &x); C(NORMAL(x) && val(x) == val(a) + val(b), "add-in-place");
  x = b; timespecsub(&a, &x, &x); C(NORMAL(x) && val(x) == val(a) - val(b), "sub-in-place");
  x = a; timespecadd(&x, &x, &x); C(NORMAL(x) && val(x) == 2 * val(a), "add-in-place");
  C((bool)timespeccmp(&a, &b, <) == (val(a) < val(b)), "cmp"); C((bool)timespeccmp(&a, &b, <=) == (val(a) <= val(b)), "cmp");
  C((bool)timespeccmp(&a, &b, >) == (val(a) > val(b)), "cmp"); C((bool)timespeccmp(&a, &b, >=) == (val(a) >= val(b)), "cmp");
  C((bool)timespeccmp(&a, &b, ==) == (val(a) == val(b)), "cmp"); C((bool)timespeccmp(&a, &b, !=) == (val(a) != val(b)), "cmp");
  C((bool)timespecisset(&a) == (val(a) != 0), "isset");
  x = a; timespecclear(&x); C(x.tv_sec == 0 && x.tv_nsec == 0, "clear");
  // a running sum of periods does not drift
  ts_t s = a; big want = val(a);
  for (int i = 0; i < 5; i++) { timespecadd(&s, &b, &s); want += val(b); C(NORMAL(s) && val(s) == want, "running-sum"); }
}
static void periods() {
  static const unsigned U[] = {0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 1999999, 2000000, 65535, 65536, 2147483647u, 2147483648u, 4294967295u, 4294000000u};
  useconds_t p = U[mc_choose(sizeof U / sizeof *U, "period")];
  int k = mc_choose(3, "offset");
  if (k) p += k == 1 ? 1 : -1;
  useconds_t keep = p;
  ts_t a = {7, 7}, b = {0, 0};
  mc_stat("ops", 1);
  useconds_t2timespec(&p, &a);
  MC_CHECK(p == keep && NORMAL(a) && val(a) == (big)p * 1000, "usec", "%u us became (%ld,%ld)", p, (long)a.tv_sec, (long)a.tv_nsec);
}
static void clockv() {
  static const uint64_t K[] = {0, 1, 999999999ULL, 1000000000ULL, 1000000001ULL, 2147483648ULL * 1000000000ULL + 5, 4294967296ULL * 1000000000ULL + 999999999ULL, 1700000000123456789ULL, 0xffffffffULL, 0x100000000ULL};
  uint64_t k = K[mc_choose(sizeof K / sizeof *K, "clock")];
  mc_stat("ops", 1);
  mc_clock(k, 0);
#ifndef __HW__ // it has no clock
  uint64_t c = clockgettime();
  MC_CHECK(c == k, "clock", "the clock is at %llu ns, clockgettime() gave %llu", (unsigned long long)k, (unsigned long long)c);
  timespan t = clockgettime(); // (32 bits on ARM)
  MC_CHECK(t == (timespan)k, "clock", "the clock is at %llu ns, clockgettime() gave %llu", (unsigned long long)k, (unsigned long long)t);
#endif
}
static void body(void *) { switch (mc_choose(3, "part")) { case 0: pairs(); break; case 1: periods(); break; default: clockv(); } }
extern "C" void mc_setup() { mc_spawn(body, 0, "client"); }
} // namespace
