// three levels, durations of temporal formulas
#define FORMULAS \
  F1(Until<Always<Until<A, B, 2>, 2>, Since<B, A, 2>, 4>), F1(Since<Hist<Since<A, B, 2>, 2>, Until<B, A, 2>, 3>), \
  F1(EvUnb<And<Since<A, B, 2>, Always<Until<A, B, 1>, 2>>>), F1(Always<Less<Dur<Until<A, B, 2>, 2>, Const<2>>, 3>), F1(EvEq<EvEq<Or<B, EvEq<A, 1>>, 1>, 1>), \
  F1(Until<Not<Until<A, B, 2>>, AlEq<Hist<A, 2>, 1>, 3>), F1(Hist<Or<Not<EvEq<B, 1>>, Since<A, Always<B, 1>, 2>>, 3>), F1(Less<Dur<Until<A, B, 2>, 3>, Sum<Dur<A, 1>, Const<1>>>)
#define DURATIONS D1(Dur<Until<A, B, 2>, 4>), D1(Dur<Since<A, B, 3>, 5>), D1(Dur<Less<Dur<A, 2>, Const<1>>, 3>), D1(Dur<EvEq<B, 1>, 4>), D1(Dur<Not<Always<Or<A, B>, 2>>, 3>), D1(Dur<Hist<A, 2>, 6>)
