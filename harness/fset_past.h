#define FORMULAS \
  F1(Since<A, B, 0>), F1(Hist<A, 0>), F1(Since<A, B, 1>), F1(Since<A, B, 2>), F1(Since<A, B, 3>), F1(Since<A, B, 5>), F1(Since<True_, B, 4>), F1(Since<Or<A, B>, Not<A>, 4>), \
  F1(Hist<A, 2>), F1(Hist<Not<B>, 4>), F0(PastEq<A, 1>), F0(PastEq<A, 2>), F0(PastEq<B, 4>), F0(HistEq<A, 3>), \
  F1(Since<Tri<1>, Tri<2>, 3>), F1(Since<Tri<2>, Tri<1>, 5>), F1(Hist<Tri<1>, 3>), F0(PastEq<Tri<2>, 2>), F0(HistEq<Tri<1>, 1>)
