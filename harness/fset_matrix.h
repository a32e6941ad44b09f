// every operator as an operand of every other one, in every position
#ifndef MF
#define MF F1
#endif
#define INNER(M) M(Until<A, B, 2>), M(UntilB<A, B, 2>), M(Always<A, 2>), M(EvEq<B, 1>), M(AlEq<A, 2>), M(EvUnb<B>), M(Since<A, B, 2>), M(Hist<A, 2>), M(PastEq<B, 1>), M(HistEq<A, 2>), M(Less<Dur<A, 3>, Const<2>>)
#define UL(...) MF(Until<__VA_ARGS__, B, 4>)
#define UR(...) MF(Until<Or<A, B>, __VA_ARGS__, 3>)
#define SL(...) MF(Since<__VA_ARGS__, B, 4>)
#define SR(...) MF(Since<Or<A, B>, __VA_ARGS__, 3>)
#define AL(...) MF(Always<__VA_ARGS__, 3>)
#define HI(...) MF(Hist<__VA_ARGS__, 3>)
#define EQ(...) MF(EvEq<__VA_ARGS__, 2>)
#define PE(...) MF(PastEq<__VA_ARGS__, 2>)
#define EU(...) MF(EvUnb<__VA_ARGS__>)
#define LD(...) MF(Less<Dur<__VA_ARGS__, 3>, Const<2>>)
#define OS(...) MF(Or<__VA_ARGS__, Since<A, B, 2>>)
#define OU(...) MF(And<Not<__VA_ARGS__>, Until<A, B, 3>>)
#ifdef MX_PAST
#define FORMULAS INNER(SL), INNER(SR), INNER(HI), INNER(PE), INNER(LD), INNER(OS)
#else
#define FORMULAS INNER(UL), INNER(UR), INNER(AL), INNER(EQ), INNER(EU), INNER(OU)
#endif
