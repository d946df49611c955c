------------------------------ MODULE JobsInt ------------------------------
(* C09 indefinite and C10 definite integrals, C11 the search tree, C23 families that are always solved, C24 transforms *)
EXTENDS JobsStruct

Fn(f, u) == <<"fn", f, u>>
Exp(u) == <<"pow", <<"e">>, u>>
Pw(u, n) == <<"pow", u, In(n)>>
LinArgs == << X, <<"mul", In(2), X>>, <<"div", X, In(3)>>, <<"neg", X>>, <<"add", X, In(1)>>, <<"add", <<"mul", In(2), X>>, In(3)>>, <<"sub", In(3), X>>,
              <<"mul", Sy("a"), X>>, <<"add", <<"mul", Sy("a"), X>>, Sy("b")>>, <<"mul", <<"pi">>, X>>, <<"add", <<"div", X, In(2)>>, Fr(1, 5)>>, <<"add", X, Y>> >>
Tab(k, u) ==
    CASE k = 1 -> Fn("sin", u) [] k = 2 -> Fn("cos", u) [] k = 3 -> Pw(Fn("sec", u), 2) [] k = 4 -> Fn("sec", u) [] k = 5 -> Exp(u)
      [] k = 6 -> <<"div", In(1), u>> [] k = 7 -> Pw(u, 3) [] k = 8 -> <<"sqrt", u>> [] k = 9 -> <<"div", In(1), <<"add", In(1), Pw(u, 2)>>>>
      [] k = 10 -> <<"div", In(1), <<"sqrt", <<"sub", In(1), Pw(u, 2)>>>>>> [] k = 11 -> Fn("tan", u) [] k = 12 -> Fn("cot", u) [] k = 13 -> Fn("csc", u)
      [] k = 14 -> Pw(Fn("csc", u), 2) [] k = 15 -> <<"mul", Fn("sec", u), Fn("tan", u)>> [] k = 16 -> <<"log", u>> [] k = 17 -> Fn("asin", u)
      [] k = 18 -> Fn("acos", u) [] k = 19 -> Fn("atan", u) [] k = 20 -> <<"pow", In(2), u>> [] k = 21 -> Pw(u, -2) [] k = 22 -> <<"pow", u, Fr(-3, 2)>>
      [] k = 23 -> Pw(Fn("sin", u), 2) [] k = 24 -> Pw(Fn("tan", u), 2) [] k = 25 -> <<"pow", u, Sy("k")>>
NTab == 25
Factor(k) ==
    CASE k = 1 -> In(1) [] k = 2 -> X [] k = 3 -> Pw(X, 2) [] k = 4 -> <<"add", <<"mul", In(3), X>>, In(1)>> [] k = 5 -> <<"sum", Pw(X, 2), <<"mul", In(-2), X>>, In(3)>>
      [] k = 6 -> <<"mul", Fr(-1, 2), Pw(X, 3)>> [] k = 7 -> Exp(X) [] k = 8 -> Fn("cos", X) [] k = 9 -> <<"div", In(1), X>> [] k = 10 -> Y
NFactor == 10
\* sin^m cos^n, sec^m tan^n, csc^m cot^n
TrigPairs == <<<<"sin", "cos">>, <<"sec", "tan">>, <<"csc", "cot">>, <<"sin", "tan">>, <<"cos", "sec">>>>
TrigArgs3 == <<X, <<"mul", In(2), X>>, <<"add", <<"mul", In(3), X>>, In(1)>>>>
\* quotients of polynomials
Nums == <<In(1), X, <<"add", X, In(2)>>, <<"sub", <<"mul", In(3), X>>, In(1)>>, Pw(X, 2), <<"sum", Pw(X, 3), X, In(-1)>>, Pw(X, 4), Sy("a")>>
Dens == <<<<"add", X, In(1)>>, <<"sub", <<"mul", In(2), X>>, In(3)>>, <<"mul", <<"add", X, In(1)>>, <<"sub", X, In(2)>>>>, <<"mul", <<"add", <<"mul", In(2), X>>, In(1)>>, <<"add", X, In(3)>>>>,
          <<"add", Pw(X, 2), In(1)>>, <<"add", Pw(X, 2), In(4)>>, <<"sum", Pw(X, 2), <<"mul", In(2), X>>, In(5)>>, <<"sum", <<"mul", In(2), Pw(X, 2)>>, <<"mul", In(-3), X>>, In(4)>>,
          <<"sub", Pw(X, 2), In(4)>>, <<"sum", Pw(X, 2), <<"mul", In(-5), X>>, In(6)>>, Pw(<<"add", X, In(1)>>, 2), Pw(X, 3), <<"sqrt", <<"add", X, In(1)>>>>, <<"sqrt", <<"sub", In(4), Pw(X, 2)>>>>,
          <<"sqrt", <<"add", Pw(X, 2), In(9)>>>>, <<"sqrt", <<"sum", <<"neg", Pw(X, 2)>>, <<"mul", In(-6), X>>, In(40)>>>>, <<"pow", <<"sub", In(1), Pw(X, 2)>>, Fr(5, 2)>>, <<"add", Pw(X, 2), Sy("a")>>,
          <<"mul", X, <<"log", X>>>>, <<"add", In(1), Exp(X)>>, <<"add", In(2), Fn("sin", X)>>, <<"sub", X, Y>>, <<"add", Pw(X, 2), Pw(Sy("a"), 2)>>, <<"mul", <<"sub", X, In(1)>>, <<"sub", X, Fr(1, 2)>>>>,
          <<"mul", <<"add", X, In(1)>>, <<"add", <<"mul", In(2), X>>, In(2)>>>>, <<"mul", Y, <<"sub", Pw(X, 2), In(1)>>>>, <<"mul", <<"add", Y, In(1)>>, <<"mul", <<"add", X, In(1)>>, <<"add", X, Y>>>>>> >>
\* outer function of inner times a power of x: substitutions
SubInner == <<Pw(X, 2), Pw(X, 3), Pw(X, 4), <<"sqrt", X>>, <<"sub", In(1), Pw(X, 2)>>, <<"add", Pw(X, 3), In(2)>>, Fn("sin", X), Fn("cos", X), Fn("tan", X), Exp(X), <<"log", X>>, <<"div", In(1), X>>, <<"mul", In(4), Pw(X, 2)>>>>
SubOuter(k, u) == CASE k = 1 -> Fn("sin", u) [] k = 2 -> Exp(u) [] k = 3 -> <<"sqrt", u>> [] k = 4 -> Pw(u, 5) [] k = 5 -> <<"div", In(1), <<"add", In(1), Pw(u, 2)>>>> [] k = 6 -> Pw(Fn("sec", u), 2)
                      [] k = 7 -> <<"log", u>> [] k = 8 -> <<"div", In(1), <<"add", In(3), u>>>> [] k = 9 -> <<"pow", <<"sub", In(1), u>>, Fr(-1, 2)>>
SubFac(k) == CASE k = 1 -> In(1) [] k = 2 -> X [] k = 3 -> Pw(X, 2) [] k = 4 -> Pw(X, 3) [] k = 5 -> Fn("cos", X) [] k = 6 -> Fn("sin", X) [] k = 7 -> Pw(Fn("sec", X), 2) [] k = 8 -> Exp(X)
                  [] k = 9 -> <<"div", In(1), X>> [] k = 10 -> Pw(X, -2) [] k = 11 -> <<"pow", X, Fr(-1, 2)>> [] k = 12 -> <<"mul", Y, X>>

\* another symbol in the integrand, named like the variables the transforms introduce
UNames == <<[x |-> "x", y |-> "u", z |-> "z"], [x |-> "u", y |-> "x", z |-> "z"], [x |-> "x", y |-> "u_1", z |-> "u"], [x |-> "theta", y |-> "t", z |-> "v"], [x |-> "t", y |-> "theta", z |-> "u"]>>
UInts == << <<"prod", Y, X, Exp(Pw(X, 2))>>, Fn("sin", <<"add", <<"mul", Y, X>>, In(1)>>), <<"div", X, <<"add", Pw(X, 2), Y>>>>, <<"mul", X, Pw(<<"add", X, Y>>, 5)>>, <<"mul", X, Exp(<<"mul", Y, X>>)>>,
            <<"div", Exp(X), <<"add", Exp(X), Y>>>>, <<"mul", Fn("cos", X), Pw(<<"add", Fn("sin", X), Y>>, 3)>>, <<"div", Y, <<"sub", Pw(X, 2), Y>>>>, <<"div", <<"log", <<"add", X, Y>>>>, <<"add", X, Y>>>>,
            <<"mul", X, <<"sqrt", <<"add", X, Y>>>>>>, <<"div", In(1), <<"add", Pw(X, 2), Pw(Y, 2)>>>>, <<"mul", Pw(X, 2), Fn("sin", <<"mul", Y, Pw(X, 3)>>)>>, <<"div", In(1), <<"mul", X, <<"add", <<"log", X>>, Y>>>>>>,
            <<"prod", X, Fn("cos", X), Pw(Y, 2)>>, <<"pow", <<"add", <<"mul", In(2), X>>, Y>>, Y>>, <<"div", X, <<"sqrt", <<"sub", Y, Pw(X, 2)>>>>>>, <<"mul", <<"log", X>>, <<"add", X, Y>>>>,
            <<"mul", Pw(Fn("sec", X), 2), Exp(<<"mul", Y, Fn("tan", X)>>)>>, <<"sum", <<"mul", X, Y>>, Fn("sin", <<"add", X, Y>>), Pw(<<"sub", X, Y>>, 2)>>, <<"div", Y, <<"mul", <<"add", X, Y>>, <<"sub", X, In(1)>>>>>> >>
\* the absolute value of x and of linear functions of x next to the roots and quotients of trigonometric substitutions
AbsX == <<<<"abs", X>>, <<"sqrt", Pw(X, 2)>>, <<"pow", <<"abs", X>>, In(3)>>, <<"div", In(1), <<"abs", X>>>>, <<"abs", <<"mul", In(2), X>>>>, <<"abs", <<"sub", X, Fr(1, 2)>>>>, <<"mul", X, <<"abs", X>>>>>>
AbsF(k, u) == CASE k = 1 -> u [] k = 2 -> <<"div", u, <<"sqrt", <<"sub", In(1), Pw(X, 2)>>>>>> [] k = 3 -> <<"div", u, <<"add", In(1), Pw(X, 2)>>>> [] k = 4 -> <<"mul", u, <<"sqrt", <<"add", In(1), Pw(X, 2)>>>>>>
                [] k = 5 -> <<"mul", u, <<"sqrt", <<"sub", In(1), Pw(X, 2)>>>>>> [] k = 6 -> <<"div", u, <<"pow", <<"sub", In(1), Pw(X, 2)>>, Fr(3, 2)>>>> [] k = 7 -> <<"add", u, <<"div", X, <<"add", Pw(X, 2), In(1)>>>>>>
                [] k = 8 -> <<"div", u, <<"sqrt", <<"add", In(1), Pw(X, 2)>>>>>> [] k = 9 -> <<"mul", u, Exp(X)>> [] k = 10 -> <<"mul", u, Fn("cos", X)>>
NAbsF == 10

\* functions of c x next to functions of a power of c x
LinC == <<In(2), Fr(1, 3), In(-3), Sy("a"), In(1)>>
LinF(k, u) == CASE k = 1 -> Fn("sin", u) [] k = 2 -> Exp(u) [] k = 3 -> <<"sqrt", <<"add", In(1), u>>>> [] k = 4 -> <<"div", In(1), <<"add", In(4), u>>>> [] k = 5 -> Fn("atan", u) [] k = 6 -> u
LinMix(r) == LET u == <<"mul", LinC[r[3]], X>>  w == IF r[4] = 4 THEN <<"mul", LinC[r[3]], Pw(X, 2)>> ELSE <<"mul", Pw(LinC[r[3]], r[4] + 1), Pw(X, r[4] + 1)>> IN <<IF r[5] = 1 THEN "mul" ELSE "add", LinF(r[1], u), LinF(r[2], IF r[4] = 3 THEN u ELSE w)>>
\* large numbers and high powers
BigLin == <<<<"mul", In(1000003), X>>, <<"add", <<"mul", Fr(12, 7), X>>, In(100)>>, <<"sub", <<"mul", In(-25), X>>, Fr(1, 64)>>, <<"add", <<"div", X, In(144)>>, In(-3)>>>>
BigInts == <<Pw(X, 25), <<"pow", X, Fr(17, 5)>>, Pw(X, -12), <<"mul", In(1000003), Pw(X, 11)>>, Pw(<<"add", X, In(1)>>, 17), Pw(<<"sub", <<"mul", In(3), X>>, In(2)>>, -11), <<"mul", X, Pw(<<"add", X, In(1)>>, 9)>>,
             <<"sum", Pw(X, 9), <<"mul", In(100), Pw(X, 7)>>, <<"mul", Fr(22, 9), Pw(X, 5)>>, <<"neg", Pw(X, 3)>>, <<"mul", In(12), X>>, In(-7), Exp(X), Fn("sin", X)>>, <<"mul", Pw(X, 4), Exp(X)>>, <<"mul", Pw(X, 5), Fn("cos", X)>>,
             Pw(Fn("sin", X), 6), <<"mul", Pw(Fn("sin", X), 7), Pw(Fn("cos", X), 3)>>, <<"mul", Pw(Fn("tan", X), 5), Pw(Fn("sec", X), 4)>>, Pw(Fn("sec", X), 6), <<"mul", Pw(X, 3), <<"log", X>>>>, <<"mul", Pw(X, 9), Fn("sin", Pw(X, 10))>>,
             <<"div", In(1), <<"prod", <<"sub", X, In(1)>>, <<"add", X, In(2)>>>>>>, <<"div", In(1), <<"add", Pw(X, 2), In(144)>>>>, <<"div", In(7), <<"sqrt", <<"sub", In(100), Pw(X, 2)>>>>>>, <<"div", In(1), <<"sum", Pw(X, 2), <<"mul", In(12), X>>, In(61)>>>>,
             <<"div", Pw(X, 6), <<"add", X, In(1)>>>>, <<"div", <<"add", Pw(X, 5), In(1)>>, <<"add", Pw(X, 2), In(1)>>>>, <<"mul", Pw(X, 2), Fn("atan", X)>>, <<"pow", In(10), <<"mul", In(3), X>>>>, <<"mul", <<"pow", In(7), X>>, X>>, <<"prod", Sy("a"), Sy("b"), Sy("c"), Pw(X, 8)>>,
             <<"mul", Pw(X, 11), Exp(Pw(X, 12))>>, <<"mul", Pw(X, 3), <<"sqrt", <<"add", Pw(X, 4), In(81)>>>>>>, <<"sum", Fn("sin", <<"mul", In(9), X>>), Fn("cos", <<"mul", In(11), X>>), Exp(<<"mul", In(-13), X>>), <<"pow", X, Fr(-7, 3)>>>>>>
\* all integrands
IntFam == << <<Len(Reps)>>, <<Len(Outer), Len(Reps)>>, <<NTab, Len(LinArgs), NFactor>>, <<Len(TrigPairs), 5, 5, Len(TrigArgs3)>>, <<Len(Nums), Len(Dens)>>,
             <<Len(SubInner), 9, 12>>, <<2, Len(Reps), Len(Reps)>>, <<Len(AbsX), NAbsF>>, <<Len(UInts)>>, <<6, 6, Len(LinC), 4, 2>>, <<NTab, Len(BigLin), 2>>, <<Len(BigInts)>>, <<4, 4, 7>> >>
IntAt(i) ==
    LET f == FamAt(IntFam, i)  r == f[2] IN
    CASE f[1] = 1 -> Reps[r[1]]
      [] f[1] = 2 -> Apply1(Outer[r[1]], Reps[r[2]])
      [] f[1] = 3 -> IF r[3] = 1 THEN Tab(r[1], LinArgs[r[2]]) ELSE <<"mul", Factor(r[3]), Tab(r[1], LinArgs[r[2]])>>
      [] f[1] = 4 -> LET q == TrigPairs[r[1]]  u == TrigArgs3[r[4]] IN <<"mul", Pw(Fn(q[1], u), r[2] - 1), Pw(Fn(q[2], u), r[3] - 1)>>
      [] f[1] = 5 -> <<"div", Nums[r[1]], Dens[r[2]]>>
      [] f[1] = 6 -> <<"mul", SubFac(r[3]), SubOuter(r[2], SubInner[r[1]])>>
      [] f[1] = 7 -> <<<<"mul", "div">>[r[1]], Reps[r[2]], Reps[r[3]]>>
      [] f[1] = 8 -> AbsF(r[2], AbsX[r[1]])
      [] f[1] = 9 -> UInts[r[1]]
      [] f[1] = 10 -> LinMix(r)
      [] f[1] = 11 -> IF r[3] = 1 THEN Tab(r[1], BigLin[r[2]]) ELSE <<"mul", X, Tab(r[1], BigLin[r[2]])>>
      [] f[1] = 12 -> BigInts[r[1]]
      [] f[1] = 13 -> \* the variable in the base and in the exponent
            LET q == <<"pow", <<X, <<"add", X, In(1)>>, Fn("sin", X), <<"mul", In(2), X>>>>[r[1]], <<X, <<"sub", X, In(2)>>, <<"log", X>>, <<"div", X, In(2)>>>>[r[2]]>> IN
            IF r[3] = 7 THEN <<"add", q, X>> ELSE <<"mul", q, <<In(3), Fn("sin", X), Exp(X), X, <<"pow", Fr(1, 3), X>>, <<"log", X>>>>[r[3]]>>
NInt == FamSize(IntFam)

IntProfiles == <<
   [Base EXCEPT !.syms = <<"x", "x", "x", "y">>, !.leaves = <<"sym", "sym", "sym", "int", "frac">>, !.ops = <<"add", "sub", "mul", "mul", "div", "ipow", "fn", "epow">>],
   [Base EXCEPT !.syms = <<"x">>, !.leaves = <<"sym", "sym", "int">>, !.ops = <<"add", "mul", "mul", "div", "ipow", "fn", "fn", "log", "sqrt">>],
   [Base EXCEPT !.syms = <<"x", "x", "a">>, !.leaves = <<"sym", "sym", "int", "pi">>, !.ops = <<"add", "sub", "mul", "mul", "div", "ipow", "rpow">>],
   [Base EXCEPT !.syms = <<"x">>, !.leaves = <<"sym", "sym", "int">>, !.fns = <<"sin", "cos">>, !.exps = <<2, 3, 4>>, !.wexps = <<>>, !.ops = <<"mul", "mul", "add", "ipow", "fn", "fn">>],
   [Base EXCEPT !.syms = <<"x">>, !.leaves = <<"sym", "sym", "int">>, !.fns = <<"asin", "acos", "atan", "tan", "sec">>, !.ops = <<"mul", "add", "ipow", "fn", "epow", "npow", "log">>] >>
\* a random integrand: an expression, or the derivative of one (so that an antiderivative exists)
GInt(g) ==
    LET pf == Pick(g, IntProfiles)  d == Between(pf[2], 1, 3)  p == GExpr(d[2], d[1], pf[1])
        k == Between(p[2], 0, 9)
        i == Between(k[2], 0, NInt - 1)  j == Between(i[2], 0, NInt - 1)  c == Pick(j[2], <<In(2), Fr(-1, 3), Y, <<"pi">>>>)
    IN <<CASE k[1] < 3 -> p[1]
           [] k[1] < 7 -> <<"diff", p[1], X>>
           [] k[1] = 7 -> <<"add", IntAt(i[1]), <<"mul", c[1], IntAt(j[1])>>>>
           [] k[1] = 8 -> <<"mul", c[1], IntAt(i[1])>>
           [] k[1] = 9 -> <<"mul", IntAt(i[1]), p[1]>>, c[2]>>

IntJob(p, v, bf) == [m |-> "int", p |-> p, v |-> v, bf |-> bf]
C09Fam == <<<<NInt, 2>>, <<2, Len(Reps)>>, <<Len(UInts), Len(UNames), 2>>>>
C09E(i) == LET f == FamAt(C09Fam, i)  r == f[2] IN
           CASE f[1] = 1 -> IntJob(IntAt(r[1] - 1), "x", r[2] = 2) [] f[1] = 2 -> IntJob(Reps[r[2]], "y", r[1] = 2)
             [] f[1] = 3 -> [ren |-> UNames[r[2]]] @@ IntJob(UInts[r[1]], "x", r[3] = 2)
C09R(g) == LET p == GInt(g)  bf == Coin(p[2], 40)  v == Pick(bf[2], <<"x", "x", "x", "x", "x", "x", "x", "y">>) IN IntJob(p[1], v[1], bf[1])

----------------------------------------------------------------------------
\* C10
Bounds == <<<<In(0), In(1)>>, <<In(1), In(2)>>, <<In(2), In(1)>>, <<Fr(1, 3), Fr(1, 2)>>, <<In(-1), In(1)>>, <<In(-2), Fr(-1, 2)>>, <<In(0), <<"pi">>>>, <<<<"div", <<"pi">>, In(4)>>, <<"div", <<"pi">>, In(3)>>>>,
            <<In(1), <<"e">>>>, <<In(1), In(1)>>, <<Sy("a"), Sy("b")>>, <<In(0), Sy("b")>>, <<Sy("b"), In(1)>>, <<Y, <<"mul", In(2), Y>>>>, <<In(4), In(7)>>, <<<<"flt", "0.25">>, <<"flt", "0.75">>>>,
            <<<<"neg", <<"pi">>>>, <<"pi">>>>, <<<<"sqrt", In(2)>>, In(3)>>, <<In(3), In(5)>>, <<X, In(2)>>>>
DefJob(p, v, a, b, sh) == [m |-> "defint", p |-> p, v |-> v, a |-> a, b |-> b, short |-> sh]
\* powers of trigonometric functions up to the special angles
PiF(n, d) == <<"mul", <<"pi">>, Fr(n, d)>>
Turns == <<<<PiF(1, 3), PiF(1, 2)>>, <<PiF(1, 6), PiF(1, 2)>>, <<PiF(-1, 4), In(0)>>, <<In(0), PiF(1, 4)>>, <<PiF(1, 2), PiF(3, 4)>>, <<PiF(1, 4), PiF(2, 3)>>, <<PiF(2, 3), <<"pi">>>>, <<PiF(-1, 2), PiF(-1, 6)>>>>
C10Fam == <<<<NInt, 4>>, <<Len(Reps), Len(Bounds), 2>>, <<NTab, Len(LinArgs), Len(Bounds)>>, <<Len(UInts), Len(UNames)>>, <<6, 4, 3, Len(Turns)>>>>
C10E(i) ==
    LET f == FamAt(C10Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> LET b == Bounds[((r[1] * 7 + r[2] * 5) % Len(Bounds)) + 1] IN DefJob(IntAt(r[1] - 1), "x", b[1], b[2], FALSE)
      [] f[1] = 2 -> LET b == Bounds[r[2]] IN DefJob(Reps[r[1]], "x", b[1], b[2], r[3] = 2)
      [] f[1] = 5 -> LET b == Turns[r[4]]  q == Pw(Fn(SixFns[r[1]], X), r[2]) IN
                     DefJob(CASE r[3] = 1 -> q [] r[3] = 2 -> <<"mul", q, Fn(SixFns[(r[1] % 6) + 1], X)>> [] r[3] = 3 -> <<"add", q, X>>, "x", b[1], b[2], r[3] = 2)
      [] f[1] = 3 -> LET b == Bounds[r[3]] IN DefJob(Tab(r[1], LinArgs[r[2]]), "x", b[1], b[2], FALSE)
      [] f[1] = 4 -> LET b == <<Bounds[1], Bounds[2], <<Y, In(2)>>, Bounds[11], Bounds[4]>>[r[2]] IN [ren |-> UNames[r[2]]] @@ DefJob(UInts[r[1]], "x", b[1], b[2], FALSE)
C10R(g) ==
    LET p == GInt(g)  b == Pick(p[2], Bounds)
        a1 == Pick(b[2], NumVals)  a2 == Pick(a1[2], NumVals)
        k == Coin(a2[2], 40)
        s == Coin(k[2], 15)
    IN IF k[1] THEN DefJob(p[1], "x", a1[1], a2[1], s[1]) ELSE DefJob(p[1], "x", b[1][1], b[1][2], s[1])

----------------------------------------------------------------------------
\* C11
TreeJob(p, v, bf) == [m |-> "tree", p |-> p, v |-> v, bf |-> bf]
\* histories on a tree of nodes
Types == <<"UNSET", "UNSET", "AND", "OR", "SOLUTION", "FAILURE">>
RECURSIVE GOps(_, _, _)
GOps(g, n, sz) ==
    IF n = 0 THEN <<<<>>, g>>
    ELSE LET k == Between(g, 0, 9)
             at == Between(k[2], 1, sz)
             at2 == Between(at[2], 1, sz)
             where == IF at[1] > at2[1] THEN at[1] ELSE at2[1]
             ty == Pick(at2[2], Types)
             ex == Between(ty[2], 0, 12)
             op == IF k[1] < 7 THEN <<"add", where, ty[1], ex[1]>> ELSE <<"type", where, ty[1]>>
             r == GOps(ex[2], n - 1, IF k[1] < 7 THEN sz + 1 ELSE sz)
         IN <<<<op>> \o r[1], r[2]>>
GNodes(g) == LET r == Between(g, 2, 13)  n == Between(r[2], 2, 9)  o == GOps(n[2], n[1], 1) IN <<[m |-> "nodes", root |-> r[1], ops |-> o[1]], o[2]>>
\* AND/OR graphs: each goal is Yes (in the table) or a list of alternatives, lists of 1..3 goals
Yes == <<<<0>>>>
RECURSIVE GAlts(_, _, _)
GAlt(g, n) ==
    LET l == Pick(g, <<1, 1, 1, 2, 2, 3>>)  a == Between(l[2], 1, n)  b == Between(a[2], 1, n)  c == Between(b[2], 1, n)
        s == {a[1]} \cup (IF l[1] > 1 THEN {b[1]} ELSE {}) \cup (IF l[1] > 2 THEN {c[1]} ELSE {})
    IN <<SetToSeq(s), c[2]>>
GAlts(g, k, n) == IF k = 0 THEN <<<<>>, g>> ELSE LET h == GAlt(g, n)  r == GAlts(h[2], k - 1, n) IN <<<<h[1]>> \o r[1], r[2]>>
RECURSIVE GGoals(_, _, _)
GGoals(g, k, n) ==
    IF k = 0 THEN <<<<>>, g>>
    ELSE LET y == Coin(g, 28)  c == Pick(y[2], <<0, 1, 1, 2, 2, 2, 3>>)  h == GAlts(c[2], c[1], n)  r == GGoals(h[2], k - 1, n)
         IN <<<<IF y[1] THEN Yes ELSE h[1]>> \o r[1], r[2]>>
GSearch(g) ==
    LET n == Between(g, 2, 7)  gs == GGoals(n[2], n[1], n[1])  bf == Coin(gs[2], 50)
    IN [m |-> "search", bf |-> bf[1], graph |-> [i \in 1..n[1] |-> IF i = 1 /\ gs[1][1] = Yes THEN <<<<n[1]>>>> ELSE gs[1][i]]]
\* all graphs on three goals with at most two alternatives of one goal or both others
Alts3 == <<<<>>, <<<<1>>>>, <<<<2>>>>, <<<<3>>>>, <<<<2, 3>>>>, <<<<2>>, <<3>>>>, <<<<3>>, <<2>>>>, <<<<1, 2>>, <<3>>>>, <<<<2, 3>>, <<3>>>>, <<<<2>>, <<2, 3>>>>, <<<<3>>, <<1, 3>>>>>>
C11Fam == <<<<NInt, 2>>, <<Len(Alts3), Len(Alts3) + 1, Len(Alts3) + 1, 2>>>>
C11E(i) ==
    LET f == FamAt(C11Fam, i)  r == f[2] IN
    IF f[1] = 1 THEN TreeJob(IntAt(r[1] - 1), "x", r[2] = 2)
    ELSE [m |-> "search", bf |-> r[4] = 2, graph |-> <<Alts3[r[1]], (<<Yes>> \o Alts3)[r[2]], (<<Yes>> \o Alts3)[r[3]]>>]
C11R(g) ==
    LET k == Between(g, 0, 9) IN
    IF k[1] < 4 THEN GNodes(k[2])[1]
    ELSE IF k[1] < 7 THEN GSearch(k[2])
    ELSE LET p == GInt(k[2])  bf == Coin(p[2], 40) IN TreeJob(p[1], "x", bf[1])

----------------------------------------------------------------------------
\* C24
LawJob(p, s) == [m |-> "law", p |-> p, v |-> "x", simp |-> s]
C24Fam == <<<<NInt>>, <<Len(AbsX), NAbsF>>, <<Len(UInts), 2>>>>
C24E(i) == LET f == FamAt(C24Fam, i)  r == f[2] IN
           CASE f[1] = 1 -> LawJob(IntAt(r[1] - 1), TRUE) [] f[1] = 2 -> LawJob(AbsF(r[2], AbsX[r[1]]), FALSE)
             [] f[1] = 3 -> [ren |-> UNames[2 * r[2] - 1]] @@ LawJob(UInts[r[1]], FALSE)
C24R(g) == LET p == GInt(g)  s == Coin(p[2], 50) IN LawJob(p[1], s[1])

----------------------------------------------------------------------------
\* C23: the families
Must(p, v, bf) == [m |-> "int", p |-> p, v |-> v, bf |-> bf, must |-> TRUE]
FCoef == <<In(1), In(2), In(-3), Fr(1, 2), Fr(-5, 3), In(10)>>
FConst == <<In(1), In(-1), In(4), Fr(2, 3), Sy("k"), <<"pi">>, <<"mul", In(2), Sy("k")>>>>
FVars == <<"x", "t", "theta", "y">>
\* c v + d
Lin(v, c, d) == <<"add", <<"mul", FCoef[c], Sy(v)>>, (<<In(0)>> \o FCoef)[d]>>
NLin == Len(FCoef) * (Len(FCoef) + 1)
LinAt(v, i) == Lin(v, ((i - 1) % Len(FCoef)) + 1, ((i - 1) \div Len(FCoef)) + 1)
FTab(k, u) ==
    CASE k = 1 -> Fn("sin", u) [] k = 2 -> Fn("cos", u) [] k = 3 -> Exp(u) [] k = 4 -> <<"div", In(1), u>> [] k = 5 -> Pw(Fn("sec", u), 2)
      [] k = 6 -> <<"div", In(1), <<"add", In(1), Pw(u, 2)>>>> [] k = 7 -> <<"sqrt", u>> [] k = 8 -> Pw(u, 3) [] k = 9 -> Pw(u, -2) [] k = 10 -> Fn("tan", u)
      [] k = 11 -> <<"log", u>> [] k = 12 -> <<"pow", In(2), u>> [] k = 13 -> Fn("sec", u) [] k = 14 -> <<"pow", u, Fr(-1, 2)>>
NFTab == 14
Mono(v, c, n) == IF n = 0 THEN FCoef[c] ELSE <<"mul", FCoef[c], Pw(Sy(v), n)>>
\* linear functions of x with other symbols and constants in their coefficients
LinSym == << <<"sum", X, Sy("k"), In(1)>>, <<"sum", <<"mul", In(2), X>>, Sy("a"), Sy("k")>>, <<"sum", X, <<"pi">>, Sy("k")>>, <<"add", X, Sy("k")>>, <<"sum", <<"mul", In(3), X>>, <<"mul", In(2), Sy("k")>>, Fr(1, 2)>>,
             <<"add", <<"mul", Sy("k"), X>>, In(1)>>, <<"add", <<"mul", Sy("k"), X>>, Sy("a")>>, <<"add", <<"mul", <<"pi">>, X>>, In(1)>>, <<"sum", <<"div", X, Sy("k")>>, Sy("a"), In(1)>>,
             <<"add", X, <<"sqrt", In(2)>>>>, <<"sub", X, Pw(Sy("k"), 2)>>, <<"sum", <<"neg", X>>, Sy("a"), <<"e">>>> >>
BigC == <<In(1000003), In(-100), Fr(12, 7), Fr(-1, 1024), Fr(22, 9)>>
Shifts == <<1, -2, 3, -5, 8>>
C23Fam == <<
   <<Len(FCoef), 7, Len(FCoef), 7, Len(FVars)>>,                  \* two monomials
   <<NLin, 11, Len(FConst)>>,                                    \* const (a v + b)^n
   <<NFTab, NLin, Len(FConst)>>,                                 \* const f(a v + b)
   <<3, NLin, 4, 3>>,                                            \* polynomial times sin, cos, exp
   <<4, 4, 3, 2>>,                                               \* sin^m cos^n
   <<4, 2>>,                                                     \* log, asin, acos, atan
   <<Len(FCoef), 5, 6, 6>>,                                      \* partial fractions
   <<NFTab, Len(LinSym), 3, 2>>,                                 \* const f(u) with other symbols and constants in u
   <<40, Len(BigC), 3>>,                                         \* large numbers and high powers: monomials, powers of linear functions,
   <<NFTab, Len(BigC), Len(BigC)>>,                              \* the table
   <<3, Len(Shifts), 4, 3, 2>>,                                  \* const / quadratic, 1 / sqrt(quadratic)
   <<4, 8, 3, 3>>,                                               \* x^(n-1) f(c x^n + d)
   <<3, 4, 2, 2>>,                                               \* exponential times sin or cos
   <<12, NLin, 2>>,                                              \* products of trigonometric functions that are derivatives
   <<4, 5, 3>>,                                                  \* e^(ax) f(e^(ax))
   <<3, NLin>>,                                                  \* inverse functions of linear functions
   <<4, 3, 4, 2>>,                                               \* sin and cos of different multiples
   <<6, 5, 2>> >>                                                \* polynomials over linear functions
\* the quadratics of C23: a (x + h/2)^2 + m/4, a, h, m integers, as a sum of three terms
Quad(a, h, m) == <<"sum", <<"mul", In(a), Pw(X, 2)>>, <<"mul", In(a * h), X>>, Fr(a * h * h + m, 4)>>
TrigD(k, u) ==
    CASE k = 1 -> <<"mul", Fn("tan", u), Pw(Fn("sec", u), 2)>> [] k = 2 -> <<"mul", Fn("sec", u), Fn("tan", u)>> [] k = 3 -> <<"mul", Fn("csc", u), Fn("cot", u)>> [] k = 4 -> Pw(Fn("csc", u), 2)
      [] k = 5 -> Fn("cot", u) [] k = 6 -> Pw(Fn("tan", u), 2) [] k = 7 -> Pw(Fn("tan", u), 3) [] k = 8 -> <<"mul", Pw(Fn("sin", u), 2), Fn("cos", u)>> [] k = 9 -> <<"div", Fn("cos", u), Pw(Fn("sin", u), 3)>>
      [] k = 10 -> <<"div", Fn("sin", u), Fn("cos", u)>> [] k = 11 -> <<"mul", Exp(Fn("sin", u)), Fn("cos", u)>> [] k = 12 -> <<"mul", Pw(Fn("cos", u), 3), Fn("sin", u)>>
C23E(i) ==
    LET f == FamAt(C23Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> LET v == FVars[r[5]] IN Must(<<"add", Mono(v, r[1], r[2] - 1), Mono(v, r[3], r[4] - 1)>>, v, (r[1] + r[4]) % 2 = 0)
      [] f[1] = 2 -> LET v == FVars[(r[1] % 4) + 1] IN Must(<<"mul", FConst[r[3]], Pw(LinAt(v, r[1]), r[2] - 5)>>, v, r[1] % 2 = 0)
      [] f[1] = 3 -> LET v == FVars[(r[2] % 4) + 1] IN Must(<<"mul", FConst[r[3]], FTab(r[1], LinAt(v, r[2]))>>, v, r[2] % 2 = 0)
      [] f[1] = 4 -> LET v == FVars[(r[2] % 4) + 1] IN Must(<<"mul", (CASE r[3] = 1 -> Sy(v) [] r[3] = 2 -> Pw(Sy(v), 2) [] r[3] = 3 -> <<"add", <<"mul", FCoef[((r[2] * 5) % Len(FCoef)) + 1], Sy(v)>>, In(2)>>
                                                                            [] r[3] = 4 -> <<"sum", Pw(Sy(v), 3), Sy(v), In(-1)>>), FTab(r[1], IF r[4] = 1 THEN Sy(v) ELSE IF r[4] = 2 THEN <<"mul", FCoef[((r[2]) % Len(FCoef)) + 1], Sy(v)>> ELSE LinAt(v, r[2]))>>, v, r[2] % 2 = 0)
      [] f[1] = 5 -> Must(<<"mul", Pw(Fn("sin", TrigArgs3[r[3]]), r[1] - 1), Pw(Fn("cos", TrigArgs3[r[3]]), r[2] - 1)>>, "x", r[4] = 2)
      [] f[1] = 6 -> Must((<<<<"log", X>>, Fn("asin", X), Fn("acos", X), Fn("atan", X)>>)[r[1]], "x", r[2] = 2)
      [] f[1] = 7 -> Must(<<"div", <<In(1), X, <<"add", X, In(2)>>, <<"sub", <<"mul", In(3), X>>, In(1)>>, Sy("k")>>[r[2]], <<"mul", <<"sub", X, In(r[3])>>, <<"add", <<"mul", In(2), X>>, In(2 * r[4] - 1)>>>>>>, "x", r[1] % 2 = 0)
      [] f[1] = 9 -> LET n == r[1] - 10  u == <<"add", <<"mul", BigC[r[2]], X>>, In(n)>>  m == Pw(X, n) IN
                     Must(CASE r[3] = 1 -> <<"mul", BigC[r[2]], m>> [] r[3] = 2 -> Pw(u, n) [] r[3] = 3 -> <<"sum", m, <<"mul", BigC[r[2]], Pw(X, n + 3)>>, <<"div", Pw(X, 2), BigC[r[2]]>>>>, "x", r[1] % 2 = 0)
      [] f[1] = 10 -> Must(<<"mul", In(1001), FTab(r[1], <<"add", <<"mul", BigC[r[2]], X>>, BigC[r[3]]>>)>>, "x", r[2] % 2 = 0)
      [] f[1] = 11 -> LET m == <<4, 12, 1, 40>>[r[3]] IN
                      IF r[5] = 1 THEN Must(<<"div", <<In(1), In(-3), Sy("k")>>[r[4]], Quad(r[1], Shifts[r[2]], m)>>, "x", r[2] % 2 = 0)
                      ELSE Must(<<"div", <<In(1), In(-3), Sy("k")>>[r[4]], <<"sqrt", Quad(0 - r[1], Shifts[r[2]], IF m = 1 THEN r[1] * Shifts[r[2]] * Shifts[r[2]] ELSE 10 * m + 7)>>>>, "x", r[2] % 2 = 0)
      [] f[1] = 12 -> LET n == r[1] + 1  u == <<"add", <<"mul", <<In(1), In(-2), Fr(1, 3)>>[r[3]], Pw(X, n)>>, <<In(1), In(5), Fr(-2, 3)>>[r[4]]>> IN
                      Must(<<"mul", Pw(X, n - 1), CASE r[2] = 1 -> Fn("sin", u) [] r[2] = 2 -> Fn("cos", u) [] r[2] = 3 -> Exp(u) [] r[2] = 4 -> <<"div", In(1), u>> [] r[2] = 5 -> <<"sqrt", u>>
                                                    [] r[2] = 6 -> Pw(u, 3) [] r[2] = 7 -> Pw(Fn("sec", u), 2) [] r[2] = 8 -> <<"pow", u, Fr(-1, 2)>>>>, "x", r[3] % 2 = 0)
      [] f[1] = 13 -> Must(<<"mul", Exp(<<"mul", <<In(1), In(2), Fr(1, 2)>>[r[1]], X>>), Fn(<<"sin", "cos">>[r[3]], <<"mul", <<In(1), In(2), In(3), Fr(1, 3)>>[r[2]], X>>)>>, "x", r[4] = 2)
      [] f[1] = 14 -> LET v == FVars[(r[2] % 4) + 1] IN Must(TrigD(r[1], LinAt(v, r[2])), v, r[3] = 2)
      [] f[1] = 15 -> LET w == Exp(<<"mul", <<In(1), In(2), In(-1), Fr(3, 2)>>[r[1]], X>>) IN
                      Must(<<"prod", <<In(1), In(-2), Sy("k")>>[r[3]], w, CASE r[2] = 1 -> w [] r[2] = 2 -> <<"div", In(1), <<"add", In(1), w>>>> [] r[2] = 3 -> Fn("sin", w) [] r[2] = 4 -> Fn("cos", w) [] r[2] = 5 -> Pw(<<"add", w, In(1)>>, 3)>>, "x", FALSE)
      [] f[1] = 16 -> LET v == FVars[(r[2] % 4) + 1] IN Must(Fn((<<"asin", "acos", "atan">>)[r[1]], LinAt(v, r[2])), v, FALSE)
      [] f[1] = 17 -> LET q == <<<<"sin", "sin">>, <<"sin", "cos">>, <<"cos", "sin">>, <<"cos", "cos">>>>[r[1]] IN Must(<<"mul", Fn(q[1], <<"mul", In(r[2]), X>>), Fn(q[2], <<"mul", <<In(2), In(5), Fr(1, 2), In(-7)>>[r[3]], X>>)>>, "x", r[4] = 2)
      [] f[1] = 18 -> Must(<<"div", <<Pw(X, 2), <<"add", Pw(X, 3), In(1)>>, <<"add", <<"mul", In(2), X>>, In(1)>>, Pw(X, 4), <<"sum", Pw(X, 2), <<"neg", X>>, In(2)>>, <<"sub", In(5), Pw(X, 3)>>>>[r[1]],
                                      <<<<"add", X, In(1)>>, <<"sub", <<"mul", In(2), X>>, In(3)>>, <<"sub", X, Fr(1, 2)>>, <<"sub", In(3), X>>, <<"add", <<"div", X, In(3)>>, In(2)>>>>[r[2]]>>, "x", r[3] = 2)
      [] f[1] = 8 -> Must(<<"mul", <<In(1), Fr(-2, 3), Sy("k")>>[r[3]], FTab(r[1], LinSym[r[2]])>>, "x", r[4] = 2)
\* sums of up to four members. A sum with a trigonometric function is simplified first, which expands (a v + b)^-n for n > 1: left out
GMember(g, v) ==
    LET k == Between(g, 1, 5)
        c == Pick(k[2], FCoef)  n == Between(c[2], 0, 7)  l == Between(n[2], 1, NLin)  q == Pick(l[2], FConst)  h == Pick(q[2], SelectSeq([i \in 1..NFTab |-> i], LAMBDA i : i # 9))  m == Between(h[2], 1, 3)
    IN <<CASE k[1] <= 1 -> <<"mul", c[1], Pw(Sy(v), n[1])>>
           [] k[1] = 2 -> <<"mul", q[1], Pw(LinAt(v, l[1]), (n[1] % 6) - 1)>>
           [] k[1] = 3 -> <<"mul", q[1], FTab(h[1], LinAt(v, l[1]))>>
           [] k[1] = 4 -> <<"prod", c[1], Pw(Sy(v), m[1]), FTab((h[1] % 3) + 1, <<"mul", FCoef[m[1]], Sy(v)>>)>>
           [] k[1] = 5 -> <<"prod", c[1], Pw(Fn("sin", Sy(v)), m[1] - 1), Pw(Fn("cos", Sy(v)), n[1] % 3)>>, m[2]>>
C23R(g) ==
    LET v == Pick(g, FVars)  n == Between(v[2], 1, 4)  a == GMember(n[2], v[1])  b == GMember(a[2], v[1])  c == GMember(b[2], v[1])  d == GMember(c[2], v[1])
    IN Must(IF n[1] = 1 THEN a[1] ELSE <<"sum">> \o SubSeq(<<a[1], b[1], c[1], d[1]>>, 1, n[1]), v[1], d[2][1] % 3 = 0)
=============================================================================
