typedef Or<And<A, Not<B>>, And<Not<A>, B>> Xor;
#define FORMULAS \
  F1(Not<Or<And<A, B>, Not<A>>>), F1(Xor), F1(And<Or<A, B>, Or<Not<A>, Not<B>>>), \
  F1(Until<Until<A, B, 2>, Always<A, 2>, 4>), F1(Always<Or<Not<A>, EvEq<B, 2>>, 3>), F1(Until<Xor, EvUnb<B>, 3>), F1(EvEq<Since<A, B, 3>, 2>), \
  F1(EvUnb<Since<True_, B, 3>>), F1(EvUnb<Hist<A, 2>>), F1(Since<Until<A, B, 3>, EvEq<A, 1>, 4>), F1(Hist<Or<A, Since<A, B, 2>>, 3>), F1(Since<A, Hist<Not<A>, 2>, 4>), \
  F1(Until<A, Less<Const<1>, Dur<B, 3>>, 4>), F1(Always<Less<Dur<A, 2>, Const<2>>, 3>), F0(PastEq<Until<A, B, 2>, 2>), F1(Until<Not<B>, Or<Always<B, 2>, EvEq<A, 1>>, 3>)
