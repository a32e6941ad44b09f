#define FORMULAS \
  F1(A), F1(Until<A, B, 1000>), F1(Until<A, B, 255>), F1(Until<A, B, 256>), F1(Until<Or<A, B>, Not<Or<A, B>>, 600>), F1(Always<A, 257>), F1(Always<Or<A, B>, 900>), \
  F1(EvEq<B, 255>), F1(EvEq<A, 256>), F1(EvEq<B, 300>), F1(AlEq<A, 600>), F1(EvUnb<B>), F1(EvUnb<Not<Or<A, B>>>)
