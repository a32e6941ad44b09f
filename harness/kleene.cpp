// C10: the three-valued connectives, every argument combination, nested in every
// way, against Kleene's tables; conversions; durations.
#include "common.h"
#include <rmtld3/rmtld3.h>
namespace mch { // so that no name of the code under test gets in the way
typedef three_valued_type tv;
static tv V(int i) { static const tv v[3] = {T_TRUE, T_FALSE, T_UNKNOWN}; return v[i]; }
static int N_(int a) { return a == 2 ? 2 : 1 - a; }                                    // 0 true, 1 false, 2 unknown
static int A_(int a, int b) { return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2; }
static int O_(int a, int b) { return N_(A_(N_(a), N_(b))); }
static int I(tv v) { for (int i = 0; i < 3; i++) if (V(i) == v) return i; return 9; }
static void is(const char *what, int got, int want, int a, int b, int c) {
  mc_stat("ops", 1);
  MC_CHECK(got == want, "truth-table", "%s with x=%d y=%d z=%d is %d, should be %d (0 true, 1 false, 2 unknown)", what, a, b, c, got, want);
}
#define T(expr, ref) is(#expr, I(expr), ref, a, b, c)
#define Q(expr, ref) is(#expr, (expr) ? 1 : 0, (ref) ? 1 : 0, a, b, c)
static int side;
static tv once(tv v) { side++; return v; }
static void connectives() {
  int a = mc_choose(3, "x"), b = mc_choose(3, "y"), c = mc_choose(3, "z");
  tv x = V(a), y = V(b), z = V(c);
  T(b3_not(x), N_(a)); T(b3_or(x, y), O_(a, b)); T(b3_and(x, y), A_(a, b));
  // two levels
  T(b3_not(b3_not(x)), a); T(b3_not(b3_or(x, y)), N_(O_(a, b))); T(b3_not(b3_and(x, y)), N_(A_(a, b)));
  T(b3_or(b3_not(x), y), O_(N_(a), b)); T(b3_or(x, b3_not(y)), O_(a, N_(b)));
  T(b3_and(b3_not(x), y), A_(N_(a), b)); T(b3_and(x, b3_not(y)), A_(a, N_(b)));
  T(b3_or(b3_or(x, y), z), O_(O_(a, b), c)); T(b3_or(x, b3_or(y, z)), O_(a, O_(b, c)));
  T(b3_or(b3_and(x, y), z), O_(A_(a, b), c)); T(b3_or(x, b3_and(y, z)), O_(a, A_(b, c)));
  T(b3_and(b3_or(x, y), z), A_(O_(a, b), c)); T(b3_and(x, b3_or(y, z)), A_(a, O_(b, c)));
  T(b3_and(b3_and(x, y), z), A_(A_(a, b), c)); T(b3_and(x, b3_and(y, z)), A_(a, A_(b, c)));
  T(b3_or(b3_and(x, y), b3_and(b3_not(x), z)), O_(A_(a, b), A_(N_(a), c)));
  T(b3_and(b3_or(x, y), b3_or(b3_not(x), z)), A_(O_(a, b), O_(N_(a), c)));
  T(b3_not(b3_or(b3_and(x, y), b3_not(b3_and(y, z)))), N_(O_(A_(a, b), N_(A_(b, c)))));
  // de Morgan, on the macros themselves
  Q(b3_not(b3_and(x, y)) == b3_or(b3_not(x), b3_not(y)), true);
  Q(b3_not(b3_or(x, y)) == b3_and(b3_not(x), b3_not(y)), true);
  // used in larger expressions
  Q(b3_or(x, y) == z, O_(a, b) == c); Q(z == b3_and(x, y), A_(a, b) == c); Q(b3_and(x, y) != T_FALSE, A_(a, b) != 1);
  Q(T_TRUE == b3_not(x), a == 1); Q(b3_or(x, y) == b3_and(x, y), O_(a, b) == A_(a, b));
  T((a == 0 ? b3_and(x, y) : b3_or(y, z)), a == 0 ? A_(a, b) : O_(b, c));
  T(b3_not(a == 0 ? y : z), N_(a == 0 ? b : c)); T(b3_or(a == 0 ? y : z, x), O_(a == 0 ? b : c, a)); T(b3_and(x, a == 0 ? y : z), A_(a, a == 0 ? b : c));
  // conversions
  T(b4_to_b3(b3_to_b4(x)), a); T(b4_to_b3(b3_to_b4(b3_or(x, y))), O_(a, b)); T(b3_not(b4_to_b3(b3_to_b4(x))), N_(a));
  Q(b3_to_b4(x) == FV_TRUE, a == 0); Q(b3_to_b4(x) == FV_FALSE, a == 1); Q(b3_to_b4(x) == FV_UNKNOWN, a == 2); Q(b3_to_b4(x) == FV_SYMBOL, false);
  T(b4_to_b3(FV_TRUE), 0); T(b4_to_b3(FV_FALSE), 1); T(b4_to_b3(FV_UNKNOWN), 2);
  Q(b3_to_b4(b3_and(x, y)) == b3_to_b4(z), A_(a, b) == c);
  static const char *names[] = {"true", "false", "unknown"};
  is("out_p(x)", strcmp(out_p(x), names[a]), 0, a, b, c);
  is("out_p(b3_or(x, y))", strcmp(out_p(b3_or(x, y)), names[O_(a, b)]), 0, a, b, c);
  is("out_fv(b3_to_b4(x))", strcmp(out_fv(b3_to_b4(x)), names[a]), 0, a, b, c);
  is("out_fv(FV_SYMBOL)", strcmp(out_fv(FV_SYMBOL), "symbol"), 0, a, b, c);
  mc_sample("x=%s y=%s z=%s: all expressions agree", names[a], names[b], names[c]);
}
static void durations() {
  static const long long v[] = {0, 1, 2, 7, 0x7fffffffLL, 0x80000000LL, 0x100000001LL, 3000000000000LL, -1, -0x100000000LL};
  enum { NV = sizeof v / sizeof *v - ((timespan)-1 < 0 ? 0 : 2) }; // some ports have no negative timespans
  int i = mc_choose(NV, "a"), j = mc_choose(NV, "b"), u = mc_choose(4, "which are unknown");
  duration p = make_duration(v[i], (u & 1) != 0), q = make_duration(v[j], (u & 2) != 0);
  mc_stat("ops", 5);
  MC_CHECK(p.first == v[i] && p.second == (u & 1), "make-duration", "make_duration(%lld)", v[i]);
  duration s = sum_dur(p, q), m = mult_dur(p, q);
  MC_CHECK(s.second == (u != 0) && m.second == (u != 0), "duration-unknown", "sum or product of durations with unknown=%d,%d", u & 1, u >> 1);
  MC_CHECK(s.first == v[i] + v[j], "duration-sum", "%lld + %lld gave %lld", v[i], v[j], (long long)s.first);
  __int128 w = (__int128)v[i] * v[j];
  if (w == (long long)w) MC_CHECK(m.first == (long long)w, "duration-product", "%lld * %lld gave %lld", v[i], v[j], (long long)m.first);
  tv want = u ? T_UNKNOWN : v[i] < v[j] ? T_TRUE : T_FALSE;
  MC_CHECK(b3_lessthan(p, q) == want, "duration-less", "%lld < %lld (unknown %d)", v[i], v[j], u);
  tv want2 = u ? T_UNKNOWN : v[i] + v[j] < v[j] ? T_TRUE : T_FALSE;
  MC_CHECK(b3_lessthan(sum_dur(p, q), q) == want2, "duration-less", "%lld + %lld < %lld (unknown %d)", v[i], v[j], v[j], u);
  MC_CHECK(b3_not(b3_lessthan(p, q)) == (want == T_UNKNOWN ? T_UNKNOWN : want == T_TRUE ? T_FALSE : T_TRUE), "duration-less", "not (%lld < %lld)", v[i], v[j]);
}
static void body(void *) { if (mc_choose(2, "part")) durations(); else connectives(); }
extern "C" void mc_setup() { mc_spawn(body, 0, "client"); }
} // namespace
