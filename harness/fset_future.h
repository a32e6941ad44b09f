#define FORMULAS \
  F1(A), F1(Until<A, B, 0>), F1(Always<A, 0>), F1(EvEq<A, 0>), F1(AlEq<B, 0>), F1(UntilB<A, B, 0>), F1(Until<A, B, 1>), F1(Until<A, B, 2>), F1(Until<A, B, 3>), F1(Until<A, B, 5>), F1(Until<True_, B, 4>), F1(Until<Or<A, B>, Not<A>, 4>), \
  F1(UntilB<A, B, 1>), F1(UntilB<A, B, 3>), F1(UntilB<A, B, 5>), F1(Always<A, 2>), F1(Always<Not<B>, 4>), \
  F1(EvEq<A, 1>), F1(EvEq<A, 2>), F1(EvEq<B, 4>), F1(AlEq<A, 3>), F1(EvUnb<A>), F1(EvUnb<And<A, B>>), \
  F1(Until<Tri<1>, Tri<2>, 3>), F1(Until<Tri<2>, Tri<1>, 5>), F1(Always<Tri<1>, 3>), F1(EvEq<Tri<2>, 2>), F1(AlEq<Tri<1>, 1>), F1(EvUnb<Tri<2>>)
