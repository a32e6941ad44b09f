#define FORMULAS \
  F1(Less<Dur<A, 300>, Const<256>>), F1(Less<Const<255>, Dur<B, 700>>)
#define DURATIONS D1(Dur<A, 255>), D1(Dur<A, 256>), D1(Dur<B, 300>), D1(Dur<Or<A, B>, 700>), D1(Dur<Not<A>, 513>)
