#define FORMULAS \
  F1(Since<A, B, 1000>), F1(Since<A, B, 255>), F1(Since<A, B, 256>), F1(Since<Or<A, B>, Not<Or<A, B>>, 600>), F1(Hist<A, 257>), F1(Hist<Or<A, B>, 500>), \
  F0(PastEq<B, 255>), F0(PastEq<A, 256>), F0(PastEq<B, 300>), F0(HistEq<A, 600>)
