#define FORMULAS \
  F1(Less<Dur<A, 3>, Const<2>>), F1(Less<Const<1>, Dur<B, 2>>), F1(Less<Sum<Dur<A, 2>, Dur<B, 4>>, Const<3>>), F1(Less<Dur<B, 1>, Dur<A, 4>>)
#define DURATIONS D1(Dur<A, 0>), D1(Dur<A, 1>), D1(Dur<A, 2>), D1(Dur<A, 3>), D1(Dur<B, 5>), D1(Dur<Or<A, B>, 4>), D1(Dur<True_, 2>), D1(Dur<Tri<1>, 3>), D1(Dur<Tri<2>, 5>), D1(Dur<Tri<1>, 6>)
