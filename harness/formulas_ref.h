// Formulas twice: eval() runs the repository's operators on a trace, ref() is the
// reference semantics on plain arrays.
#ifndef FORMULAS_REF_H
#define FORMULAS_REF_H
#include <rmtld3/formulas.h>
namespace mch { // so that no name of the code under test gets in the way
typedef three_valued_type tv;
#ifndef UNIT
#define UNIT 1L
#endif
#ifndef MAXEV
#define MAXEV 12
#endif
struct Ref { int n; timespan tm[MAXEV]; long sym[MAXEV]; }; // the window, oldest first
static inline tv k_not(tv a) { return a == T_TRUE ? T_FALSE : a == T_FALSE ? T_TRUE : T_UNKNOWN; }
static inline tv k_and(tv a, tv b) { return a == T_FALSE || b == T_FALSE ? T_FALSE : a == T_TRUE && b == T_TRUE ? T_TRUE : T_UNKNOWN; }
static inline tv k_or(tv a, tv b) { return k_not(k_and(k_not(a), k_not(b))); }
static inline const char *nm(tv a) { return a == T_TRUE ? "true" : a == T_FALSE ? "false" : a == T_UNKNOWN ? "unknown" : "INVALID"; }

template <int P> struct Prop {
  template <class T> static tv eval(T &tr, timespan &t) { return prop<T>(tr, P, t); }
  static tv ref(const Ref &r, int c, timespan t) { return c + 1 < r.n && r.tm[c] <= t && t < r.tm[c + 1] ? (r.sym[c] == P ? T_TRUE : T_FALSE) : T_UNKNOWN; }
};
// any subformula: a verdict of each kind at every event, the last one included
template <int P> struct Tri {
  template <class T> static tv eval(T &tr, timespan &) { typename T::buffer_t::event_t e; return tr.read(e) != tr.AVAILABLE || e.getData() == 3 ? T_UNKNOWN : e.getData() == P ? T_TRUE : T_FALSE; }
  static tv ref(const Ref &r, int c, timespan) { return r.sym[c] == 3 ? T_UNKNOWN : r.sym[c] == P ? T_TRUE : T_FALSE; }
};
struct True_ { template <class T> static tv eval(T &, timespan &) { return T_TRUE; } static tv ref(const Ref &, int, timespan) { return T_TRUE; } };
struct False_ { template <class T> static tv eval(T &, timespan &) { return T_FALSE; } static tv ref(const Ref &, int, timespan) { return T_FALSE; } };
template <class F> struct Not {
  template <class T> static tv eval(T &tr, timespan &t) { auto x = F::eval(tr, t); return b3_not(x); }
  static tv ref(const Ref &r, int c, timespan t) { return k_not(F::ref(r, c, t)); }
};
template <class F, class G> struct Or {
  template <class T> static tv eval(T &tr, timespan &t) { auto x = F::eval(tr, t); auto y = G::eval(tr, t); return b3_or(x, y); }
  static tv ref(const Ref &r, int c, timespan t) { return k_or(F::ref(r, c, t), G::ref(r, c, t)); }
};
template <class F, class G> struct And {
  template <class T> static tv eval(T &tr, timespan &t) { auto x = F::eval(tr, t); auto y = G::eval(tr, t); return b3_and(x, y); }
  static tv ref(const Ref &r, int c, timespan t) { return k_and(F::ref(r, c, t), G::ref(r, c, t)); }
};
template <class T, class F, class G> struct Ev {
  static tv eval_phi1(T &tr, timespan &t) { return F::eval(tr, t); }
  static tv eval_phi2(T &tr, timespan &t) { return G::eval(tr, t); }
};
// until over the events: from the one in force at t, strictly before t + b
static inline tv fold(tv v1, tv v2, bool &go) { go = false; if (v2 != T_FALSE) return v2; if (v1 != T_TRUE) return v1; go = true; return T_UNKNOWN; }
template <class F, class G, long B> struct Until {
  enum : long { b = B * UNIT };
  template <class T> static tv eval(T &tr, timespan &t) { return until_less<T, Ev<T, F, G>, (timespan)(B * UNIT)>(tr, t); }
  static tv ref(const Ref &r, int c, timespan t) {
    for (int j = c; j < r.n; j++) {
      if (r.tm[j] >= t + b) return T_FALSE;
      bool go; tv v = fold(F::ref(r, j, r.tm[j]), G::ref(r, j, r.tm[j]), go);
      if (!go) return v;
    }
    return T_UNKNOWN;
  }
};
// the same with the check of instants in between
template <class F, class G, long B> struct UntilB {
  template <class T> static tv eval(T &tr, timespan &t) { return until_less<T, Ev<T, F, G>, (timespan)(B * UNIT), with_in_between>(tr, t); }
  static tv ref(const Ref &r, int c, timespan t) { return Until<F, G, B>::ref(r, c, t); }
};
// true U[<B] G with instants in between, G of any kind: a witness is a real one, and
// without one the verdict is that of the events
template <class G, long B> struct Witness {
  template <class T> static tv eval(T &tr, timespan &t) { return UntilB<True_, G, B>::eval(tr, t); }
  static int may(const Ref &r, int c, timespan t) {
    int m = 1 << Until<True_, G, B>::ref(r, c, t);
    for (timespan s = r.tm[c]; s < t + B * UNIT && s < r.tm[r.n - 1]; s += UNIT) {
      int j = c; while (j + 1 < r.n && r.tm[j + 1] <= s) j++;
      tv v = G::ref(r, j, s);
      if (v != T_FALSE) m |= 1 << v;
    }
    return m;
  }
};
template <class F, long B> struct Always {
  template <class T> static tv eval(T &tr, timespan &t) { return always_less<T, Ev<T, F, True_>, (timespan)(B * UNIT)>(tr, t); }
  static tv ref(const Ref &r, int c, timespan t) { return k_not(Until<True_, Not<F>, B>::ref(r, c, t)); }
};
template <class F, long B> struct EvEq {
  enum : long { b = B * UNIT };
  template <class T> static tv eval(T &tr, timespan &t) { return eventually_equal<T, Ev<T, F, True_>, (timespan)(B * UNIT)>(tr, t); }
  static tv ref(const Ref &r, int c, timespan t) {
    for (int j = c; j + 1 < r.n; j++) if (r.tm[j] <= t + b && t + b < r.tm[j + 1]) return F::ref(r, j, r.tm[j]);
    return T_UNKNOWN;
  }
};
template <class F, long B> struct AlEq : EvEq<F, B> {
  template <class T> static tv eval(T &tr, timespan &t) { return always_equal<T, Ev<T, F, True_>, (timespan)(B * UNIT)>(tr, t); }
};
template <class F> struct EvUnb {
  template <class T> static tv eval(T &tr, timespan &t) { return eventually_less_unbounded<T, Ev<T, F, True_>>(tr, t); }
  static tv ref(const Ref &r, int c, timespan t) {
    for (int j = c; j < r.n; j++) { tv v = F::ref(r, j, r.tm[j]); if (v != T_FALSE) return v; }
    return T_UNKNOWN;
  }
};
template <class F, class G, long B> struct Since {
  enum : long { b = B * UNIT };
  template <class T> static tv eval(T &tr, timespan &t) { return since_less<T, Ev<T, F, G>, (timespan)(B * UNIT)>(tr, t); }
  static tv ref(const Ref &r, int c, timespan t) {
    for (int j = c; j >= 0; j--) {
      if ((long)r.tm[j] <= (long)t - b) return T_FALSE; // also the empty window of bound 0
      if (r.tm[j] == t) continue;
      bool go; tv v = fold(F::ref(r, j, r.tm[j]), G::ref(r, j, r.tm[j]), go);
      if (!go) return v;
    }
    return T_UNKNOWN; // the history does not reach back to t - b
  }
};
template <class F, long B> struct Hist {
  template <class T> static tv eval(T &tr, timespan &t) { return historically_less<T, Ev<T, F, True_>, (timespan)(B * UNIT)>(tr, t); }
  static tv ref(const Ref &r, int c, timespan t) { return k_not(Since<True_, Not<F>, B>::ref(r, c, t)); }
};
template <class F, long B> struct PastEq {
  enum : long { b = B * UNIT };
  template <class T> static tv eval(T &tr, timespan &t) { return pasteventually_equal<T, Ev<T, F, True_>, (timespan)(B * UNIT)>(tr, t); }
  static tv ref(const Ref &r, int c, timespan t) {
    if ((long)t >= b) {
      for (int j = c; j >= 0; j--) if ((long)r.tm[j] <= (long)t - b) return F::ref(r, j, r.tm[j]);
      return T_UNKNOWN;
    }
    // before time b: the earliest event that is strictly in the past
    return r.n && r.tm[0] < t ? F::ref(r, 0, r.tm[0]) : T_UNKNOWN;
  }
};
template <class F, long B> struct HistEq : PastEq<F, B> {
  template <class T> static tv eval(T &tr, timespan &t) { return historically_equal<T, Ev<T, F, True_>, (timespan)(B * UNIT)>(tr, t); }
};
// duration of F over [t, t + B)
template <class F, long B> struct Dur {
  enum : long { b = B * UNIT };
  template <class T> static duration eval(T &tr, timespan &t) { return duration_term<T, Ev<T, F, True_>, (timespan)(B * UNIT)>(tr, t); }
  static duration ref(const Ref &r, int c, timespan t) {
    long long sum = 0; bool unk = r.n == 0 || r.tm[r.n - 1] <= t + b;
    for (int j = c; j + 1 < r.n; j++) {
      if (r.tm[j + 1] <= t || r.tm[j] > t + b) continue;
      tv v = F::ref(r, j, r.tm[j]);
      if (v == T_UNKNOWN) unk = true;
      timespan lo = r.tm[j] < t ? t : r.tm[j], hi = r.tm[j + 1] > t + b ? t + b : r.tm[j + 1];
      if (v == T_TRUE && hi > lo) sum += hi - lo;
    }
    return duration((timeabs)sum, unk);
  }
  // only the value at the very end of the window is unknown: it counts for nothing
  static bool either(const Ref &r, int c, timespan t) {
    bool in = false, end = false;
    for (int j = c; j + 1 < r.n; j++) {
      if (r.tm[j + 1] <= t || r.tm[j] > t + b || F::ref(r, j, r.tm[j]) != T_UNKNOWN) continue;
      if (r.tm[j] == t + b) end = true; else in = true;
    }
    return end && !in && r.tm[r.n - 1] > t + b;
  }
};
template <long V> struct Const {
  template <class T> static duration eval(T &, timespan &) { return make_duration(V * UNIT, false); }
  static duration ref(const Ref &, int, timespan) { return duration((timeabs)(V * UNIT), false); }
};
template <class D, class E> struct Sum {
  template <class T> static duration eval(T &tr, timespan &t) { return sum_dur(D::eval(tr, t), E::eval(tr, t)); }
  static duration ref(const Ref &r, int c, timespan t) { duration a = D::ref(r, c, t), b = E::ref(r, c, t); return duration(a.first + b.first, a.second | b.second); }
};
template <class D, class E> struct Less {
  template <class T> static tv eval(T &tr, timespan &t) { auto x = D::eval(tr, t); auto y = E::eval(tr, t); return b3_lessthan(x, y); }
  static tv ref(const Ref &r, int c, timespan t) { duration a = D::ref(r, c, t), b = E::ref(r, c, t); return a.second || b.second ? T_UNKNOWN : a.first < b.first ? T_TRUE : T_FALSE; }
};
} // namespace
#endif
