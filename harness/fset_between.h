#define FORMULAS \
  FW(Witness<EvEq<B, 2>, 3>), FW(Witness<EvEq<A, 1>, 4>), FW(Witness<Less<Const<1>, Dur<B, 3>>, 4>), FW(Witness<Not<Or<Not<A>, EvEq<B, 3>>>, 4>)
