----------------------------- MODULE JobsArith -----------------------------
(* C01, C03 *)
EXTENDS JobBase

Atoms == <<
   In(0), In(1), In(-1), In(2), In(-2), In(3), Fr(1, 2), Fr(-1, 3), Fr(2, 3), In(4), In(8),
   X, Y, <<"neg", X>>, <<"mul", In(2), X>>, <<"div", X, In(2)>>, <<"mul", In(-3), X>>,
   <<"pow", X, In(2)>>, <<"pow", X, In(-1)>>, <<"pow", X, In(-2)>>, <<"sqrt", X>>, <<"pow", X, Fr(-1, 2)>>, <<"pow", X, Fr(2, 3)>>,
   <<"mul", X, Y>>, <<"div", X, Y>>, <<"add", X, Y>>, <<"add", X, In(1)>>, <<"sub", <<"neg", X>>, In(1)>>, <<"sub", X, Y>>,
   <<"pow", <<"add", X, In(1)>>, In(2)>>, <<"pow", <<"add", X, In(1)>>, In(-1)>>, <<"mul", In(2), <<"add", X, In(1)>>>>,
   <<"pi">>, <<"e">>, <<"mul", In(2), <<"pi">>>>, <<"pow", <<"e">>, X>>, <<"pow", <<"e">>, <<"neg", X>>>>, <<"pow", In(2), X>>,
   <<"sqrt", In(2)>>, <<"pow", In(2), Fr(1, 3)>>, <<"flt", "0.5">>, <<"flt", "-2.5">>,
   <<"fn", "sin", X>>, <<"pow", <<"fn", "sin", X>>, In(2)>>, <<"log", X>>, <<"abs", X>> >>
\* further ones, for arithmetic only
Atoms2 == Atoms \o <<
   <<"log", X, In(2)>>, <<"mul", Y, <<"log", X, In(2)>>>>, <<"mul", In(-2), <<"log", Y>>>>, <<"pow", X, Y>>, <<"pow", Y, In(2)>>, <<"pow", X, <<"neg", Y>>>>, <<"mul", <<"sqrt", In(2)>>, X>>, <<"sqrt", <<"add", X, In(1)>>>>,
   <<"pow", <<"e">>, <<"mul", In(2), X>>>>, <<"pow", In(2), <<"neg", X>>>>, <<"pow", In(2), <<"add", X, In(1)>>>>, <<"neg", <<"pow", X, In(2)>>>>, <<"fn", "cos", X>>, <<"mul", X, <<"pow", Y, In(2)>>>>, <<"mul", In(3), <<"pow", X, In(-1)>>>>,
   Fr(9, 4), Fr(-8, 27), In(-8), In(9), In(10), In(27), Fr(1, 8), In(12), Fr(3, 2), Fr(-1, 2), <<"sqrt", In(3)>>, <<"pow", In(2), Fr(-1, 2)>>, <<"pow", In(12), Fr(1, 2)>>, <<"pow", In(6), Fr(2, 3)>>, <<"sqrt", <<"pi">>>>, <<"pow", <<"pi">>, In(2)>>,
   <<"bigq", "100000000000000000000000", "1">>, <<"bigq", "1", "100000000000000000000007">>, <<"div", <<"add", X, In(1)>>, Y>>, <<"mul", <<"add", X, In(1)>>, <<"sub", X, Y>>>>, <<"neg", <<"add", X, In(1)>>>>,
   <<"mul", <<"pi">>, X>>, <<"add", <<"sqrt", In(2)>>, In(1)>>, <<"abs", <<"sub", X, Y>>>>, <<"fn", "tan", Y>>, <<"pow", <<"add", X, Y>>, Fr(1, 2)>> >>
\* powers whose exponents contain logarithms
LogArgs == <<X, Y, <<"add", X, In(1)>>, <<"pow", X, In(2)>>, In(3), <<"mul", X, Y>>>>
LogBases == <<<<"e">>, In(2), In(10), Fr(1, 2), Y>>
LogPowB == <<<<"e">>, In(2), In(10), Fr(1, 2), X, Y, <<"pi">>, <<"pow", <<"e">>, In(2)>>, In(4)>>
LogPow(r) ==
    LET l == <<"log", LogArgs[r[2]], LogBases[r[3]]>> IN
    <<"pow", LogPowB[r[1]], CASE r[4] = 1 -> l [] r[4] = 2 -> <<"mul", X, l>> [] r[4] = 3 -> <<"mul", In(-2), l>> [] r[4] = 4 -> <<"add", l, X>> [] r[4] = 5 -> <<"mul", <<"add", X, In(1)>>, l>>
                              [] r[4] = 6 -> <<"div", l, In(2)>> [] r[4] = 7 -> <<"pow", l, In(2)>> [] r[4] = 8 -> <<"mul", l, <<"log", Y>>>> [] r[4] = 9 -> <<"div", l, <<"log", X, In(2)>>>>>>

Div(a, b) == a \div b

----------------------------------------------------------------------------
\* C01 arithmetic
C01Bin == <<"add", "sub", "mul", "div", "pow">>
C01Fam == <<<<Len(Atoms2), Len(Atoms2), Len(C01Bin)>>, <<Len(LogPowB), Len(LogArgs), Len(LogBases), 9>>>>
C01E(i) ==
    LET f == Locate(i, [k \in DOMAIN C01Fam |-> ProdOf(C01Fam[k])], 1)
        r == Radix(f[2], C01Fam[f[1]])
    IN [m |-> "prog", p |-> IF f[1] = 1 THEN <<C01Bin[r[3]], Atoms2[r[1]], IF C01Bin[r[3]] = "pow" /\ Atoms2[r[2]][1] = "bigq" THEN In(5) ELSE Atoms2[r[2]]>> ELSE LogPow(r)]

C01Profiles == <<
   [Base EXCEPT !.ops = <<"add", "add", "sub", "mul", "mul", "div", "neg", "ipow", "ipow", "rpow", "sqrt", "raw", "sum", "prod", "share">>],
   [Base EXCEPT !.syms = <<"x">>, !.ops = <<"add", "mul", "mul", "div", "ipow", "rpow", "rpow", "sqrt", "prod">>],
   [Base EXCEPT !.syms = <<"x", "y">>, !.leaves = <<"sym", "sym", "int", "frac", "pi", "e">>, !.fns = AllFns,
                !.ops = <<"add", "sub", "mul", "div", "neg", "ipow", "sqrt", "fn", "log", "abs", "epow", "npow", "xpow", "sum", "prod">>],
   [Base EXCEPT !.leaves = <<"int", "frac", "frac", "int", "pi", "e", "sym">>, !.ops = <<"add", "sub", "mul", "div", "ipow", "rpow", "sqrt", "raw">>],
   [Base EXCEPT !.leaves = <<"sym", "sym", "int", "flt">>, !.ops = <<"add", "sub", "mul", "div", "neg", "ipow", "raw", "sum", "prod">>] >>
\* many operands, and numbers beyond the precision of floats
LongAtoms == Atoms2 \o <<Sy("a"), Sy("b"), Sy("c"), Z, <<"bigq", "9007199254740993", "1">>, <<"bigq", "-1", "9007199254740993">>, <<"mul", <<"bigq", "123456789012345678901", "1">>, X>>, <<"mul", <<"bigq", "-123456789012345678902", "7">>, X>>,
               <<"mul", <<"bigq", "36028797018963969", "2">>, <<"mul", X, Y>>>>, <<"mul", Fr(1, 3), X>>, <<"mul", In(5), Z>>>>
RECURSIVE PickA(_, _)
PickA(g, n) == IF n = 0 THEN <<<<>>, g>> ELSE LET a == Pick(g, LongAtoms)  r == PickA(a[2], n - 1) IN <<<<a[1]>> \o r[1], r[2]>>
RECURSIVE ChainL(_, _)
ChainL(op, l) == IF Len(l) = 1 THEN l[1] ELSE <<op, ChainL(op, SubSeq(l, 1, Len(l) - 1)), l[Len(l)]>>
C01Long(g) ==
    LET n == Between(g, 4, 12)  l == PickA(n[2], n[1])  o == Pick(l[2], <<"sum", "prod", "add", "mul", "sub">>) IN
    [m |-> "prog", p |-> IF o[1] \in {"sum", "prod"} THEN <<o[1]>> \o l[1] ELSE ChainL(o[1], l[1])]
C01R(g) ==
    LET lg == Coin(g, 20) IN IF lg[1] THEN C01Long(lg[2]) ELSE
    LET pf == Pick(lg[2], C01Profiles)  d == Between(pf[2], 2, 5)  p == GExpr(d[2], d[1], pf[1]) IN [m |-> "prog", p |-> p[1]]

----------------------------------------------------------------------------
\* C03 functions
PiTimes(k, d) == IF k = 0 THEN In(0) ELSE <<"mul", Fr(k, d), <<"pi">>>>
C03Parts == <<X, <<"neg", X>>, <<"div", X, In(2)>>, <<"sub", X, Y>>, <<"sub", <<"neg", X>>, Y>>, <<"mul", In(2), X>>, <<"mul", X, Y>>, <<"fn", "atan", X>>, <<"mul", <<"pi">>, X>>>>
C03Inner == <<X, <<"neg", X>>, <<"mul", In(2), X>>, <<"add", X, In(1)>>, <<"pow", X, In(2)>>, <<"div", In(1), X>>, <<"sub", <<"neg", X>>, In(1)>>, Fr(1, 2), Fr(-1, 3), <<"sqrt", X>>>>
C03Logs == <<X, <<"pow", X, In(2)>>, In(1), <<"e">>, <<"pow", <<"e">>, X>>, <<"pow", <<"e">>, <<"neg", X>>>>, In(2), Fr(1, 2), <<"sqrt", X>>, <<"mul", X, Y>>,
             <<"pow", <<"e">>, <<"mul", X, Y>>>>, <<"pow", In(2), X>>, In(10), <<"pow", Sy("b"), X>>, <<"pi">>, <<"div", X, Y>>, <<"flt", "0.5">>, <<"pow", In(10), <<"add", X, Y>>>>, In(8), <<"pow", X, Y>>>>
C03Bases == <<<<"e">>, In(2), In(10), Sy("b"), Fr(1, 2), X, <<"flt", "2.5">>>>
C03Exp == <<X, In(2), <<"neg", X>>, <<"add", X, Y>>, <<"mul", X, Y>>, Fr(1, 2), <<"fn", "sin", X>>, In(-3)>>
C03Abs == Atoms \o <<<<"neg", <<"pow", X, In(2)>>>>, <<"mul", <<"abs", X>>, In(-2)>>, <<"mul", X, <<"abs", Y>>>>, <<"sub", <<"sqrt", In(2)>>, In(2)>>, <<"sub", In(1), <<"sqrt", In(2)>>>>,
                    <<"mul", In(-2), <<"pi">>>>, <<"sub", <<"e">>, <<"pi">>>>, <<"pow", <<"e">>, In(-1)>>, <<"sub", <<"neg", X>>, Y>>, <<"add", <<"abs", X>>, In(1)>>, <<"sub", <<"abs", X>>, In(1)>>,
                    <<"mul", <<"pi">>, <<"sub", In(2), <<"e">>>>>>, <<"pow", <<"sub", X, Y>>, In(3)>>, <<"flt", "-0.75">>, <<"pow", In(-2), In(3)>>, <<"pow", <<"pi">>, X>>, <<"sub", In(3), <<"pi">>>>,
                    <<"sum", In(1), <<"pi">>, <<"e">>>>, <<"prod", <<"pi">>, <<"e">>, In(-1)>>, <<"mul", Fr(-1, 2), <<"sqrt", In(3)>>>>>>
\* many turns away
FarK == <<601, -1201, 2407, 99999, -1000001, 123456789, 1000000008>>
FarD == <<1, 2, 3, 4, 6, 12, 5, 8>>
FarBig == <<<<"1000000000000000000000007", "12">>, <<"-98765432109876543210", "1">>, <<"123456789012345678901", "2">>, <<"4000000000000000000000000000001", "3">>>>
C03Fam == <<<<6, 81>>, <<6, Len(C03Parts), 13>>, <<9, 9, Len(C03Inner)>>, <<Len(C03Logs), Len(C03Bases)>>, <<Len(C03Abs)>>,
            <<Len(C03Bases), Len(C03Inner), Len(C03Exp)>>, <<6, Len(C03Parts), 5>>, <<Len(LogPowB), Len(LogArgs), Len(LogBases), 9>>,
            <<6, Len(FarK), Len(FarD), 3>>, <<6, Len(FarBig), 2>>>>
C03E(i) ==
    LET f == Locate(i, [k \in DOMAIN C03Fam |-> ProdOf(C03Fam[k])], 1)
        r == Radix(f[2], C03Fam[f[1]])
        p == CASE f[1] = 1 -> <<"fn", TrigFns[r[1]], PiTimes(r[2] - 41, 12)>>
               [] f[1] = 2 -> <<"fn", TrigFns[r[1]], <<"add", C03Parts[r[2]], PiTimes(r[3] - 7, 2)>>>>
               [] f[1] = 3 -> IF <<r[1], r[2]>> \in {<<7, 5>>, <<8, 4>>, <<9, 6>>}   \* the known finding: probed once
                              THEN <<"fn", "sin", X>>
                              ELSE <<"fn", AllFns[r[1]], <<"fn", AllFns[r[2]], C03Inner[r[3]]>>>>
               [] f[1] = 4 -> <<"log", C03Logs[r[1]], C03Bases[r[2]]>>
               [] f[1] = 5 -> <<"abs", C03Abs[r[1]]>>
               [] f[1] = 6 -> LET l == <<"log", C03Inner[r[2]], C03Bases[r[1]]>>
                              IN <<"pow", C03Bases[r[1]], IF r[3] = 8 THEN l ELSE <<"mul", l, C03Exp[r[3]]>>>>
               [] f[1] = 8 -> LogPow(r)
               [] f[1] = 9 -> LET q == PiTimes(FarK[r[2]], FarD[r[3]]) IN <<"fn", TrigFns[r[1]], CASE r[4] = 1 -> q [] r[4] = 2 -> <<"add", X, q>> [] r[4] = 3 -> <<"sub", q, <<"mul", In(3), Y>>>>>>
               [] f[1] = 10 -> LET q == <<"mul", <<"bigq", FarBig[r[2]][1], FarBig[r[2]][2]>>, <<"pi">>>> IN <<"fn", TrigFns[r[1]], IF r[3] = 1 THEN q ELSE <<"sub", X, q>>>>
               [] f[1] = 7 -> \* a multiple of pi inside a longer sum
                              <<"fn", TrigFns[r[1]], <<"sum", C03Parts[r[2]], PiTimes(2 * (r[3] - 3), 1), Sy("z"), PiTimes(1, 3)>>>>
    IN [m |-> "prog", p |-> p]
C03Profiles == <<
   [Base EXCEPT !.syms = <<"x", "y">>, !.leaves = <<"sym", "sym", "int", "frac", "pi">>, !.fns = TrigFns,
                !.ops = <<"add", "sub", "mul", "neg", "fn", "fn", "fn", "leaf">>],
   [Base EXCEPT !.leaves = <<"pi", "pi", "int", "frac", "sym">>, !.syms = <<"x">>, !.fns = TrigFns,
                !.ops = <<"add", "sub", "mul", "mul", "neg", "fn", "fn">>],
   [Base EXCEPT !.syms = <<"x", "y">>, !.leaves = <<"sym", "sym", "int", "e", "flt">>, !.fns = InvFns,
                !.ops = <<"add", "sub", "mul", "neg", "fn", "log", "logb", "abs", "epow", "npow", "ipow", "xpow">>] >>
C03R(g) ==
    LET pf == Pick(g, C03Profiles)
        d == Between(pf[2], 2, 4)
        p == GExpr(d[2], d[1], pf[1])
        f == Pick(p[2], AllFns \o <<"log", "abs">>)
    IN [m |-> "prog", p |-> IF f[1] \in {"log", "abs"} THEN <<f[1], p[1]>> ELSE <<"fn", f[1], p[1]>>]
=============================================================================
