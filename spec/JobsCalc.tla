------------------------------ MODULE JobsCalc ------------------------------
(* C04 expand, C05 subs, C06 evalf, C07 diff, C08 simplification, C22 product to sum *)
EXTENDS JobBase

Call(f, p) == [m |-> "call", f |-> f, p |-> p]
CallA(f, p, a) == [m |-> "call", f |-> f, p |-> p, a |-> a]

----------------------------------------------------------------------------
\* a general mix of expressions
MixProfiles == <<
   Base,
   [Base EXCEPT !.ops = <<"add", "mul", "div", "neg", "ipow", "rpow", "sqrt", "fn", "sum", "prod">>],
   [Base EXCEPT !.syms = <<"x", "y">>, !.fns = AllFns, !.leaves = <<"sym", "sym", "int", "frac", "pi", "e">>,
                !.ops = <<"add", "sub", "mul", "div", "neg", "ipow", "sqrt", "fn", "fn", "log", "logb", "abs", "epow", "npow", "sum", "prod">>],
   [Base EXCEPT !.syms = <<"x">>, !.fns = TrigFns, !.ops = <<"add", "sub", "mul", "mul", "div", "ipow", "fn", "fn", "neg">>],
   [Base EXCEPT !.syms = <<"x", "y">>, !.leaves = <<"sym", "sym", "int", "flt">>, !.fns = AllFns, !.ops = <<"add", "sub", "mul", "div", "neg", "ipow", "fn", "log", "epow", "xpow">>] >>
GMixed(g, lo, hi) == LET pf == Pick(g, MixProfiles)  d == Between(pf[2], lo, hi) IN GExpr(d[2], d[1], pf[1])

\* one representative of every class of expression, and their combinations
Reps == <<
   In(0), In(3), Fr(-1, 2), <<"flt", "1.5">>, <<"pi">>, <<"e">>, X, Y, <<"neg", X>>, <<"mul", In(3), X>>, <<"div", X, Y>>,
   <<"pow", X, In(3)>>, <<"pow", X, In(-2)>>, <<"sqrt", X>>, <<"pow", X, Fr(2, 3)>>, <<"pow", <<"e">>, X>>, <<"pow", In(2), X>>, <<"pow", X, Y>>, <<"pow", Y, X>>,
   <<"pow", <<"e">>, <<"mul", In(-2), <<"pow", X, In(2)>>>>>>, <<"add", X, Y>>, <<"sub", <<"pow", X, In(2)>>, In(1)>>, <<"pow", <<"add", X, In(1)>>, In(2)>>,
   <<"div", In(1), <<"add", X, In(2)>>>>, <<"sqrt", <<"add", <<"pow", X, In(2)>>, In(1)>>>>, <<"log", X>>, <<"log", X, In(2)>>, <<"log", X, Sy("b")>>, <<"log", In(2), X>>,
   <<"log", <<"add", X, Y>>>>, <<"log", <<"abs", X>>>>, <<"abs", X>>, <<"abs", <<"sub", X, Y>>>>,
   <<"fn", "sin", X>>, <<"fn", "cos", X>>, <<"fn", "tan", X>>, <<"fn", "sec", X>>, <<"fn", "csc", X>>, <<"fn", "cot", X>>,
   <<"fn", "asin", <<"div", X, In(20)>>>>, <<"fn", "acos", <<"div", X, In(20)>>>>, <<"fn", "atan", X>>, <<"fn", "sin", <<"mul", In(2), X>>>>, <<"fn", "cos", <<"add", X, Y>>>>,
   <<"pow", <<"fn", "sin", X>>, In(2)>>, <<"pow", <<"fn", "tan", X>>, In(-1)>>, <<"fn", "sec", <<"pow", X, In(2)>>>>, <<"mul", X, <<"fn", "sin", X>>>> >>
RepOps == <<"add", "mul", "div", "sub">>
\* sums and products with many operands
LongPool == Reps \o <<Z, Sy("a"), Sy("b"), Sy("c"), <<"mul", X, Y>>, <<"mul", In(-2), Z>>, <<"mul", Y, Z>>, <<"pow", Z, In(2)>>, In(1), In(-2), Fr(2, 3), <<"mul", Fr(3, 2), Y>>, <<"mul", In(-1), <<"fn", "sin", X>>>>,
              <<"pow", Y, In(-1)>>, <<"mul", <<"sqrt", In(2)>>, X>>, <<"fn", "sin", Z>>, <<"pow", <<"e">>, Z>>>>
RECURSIVE PickN(_, _, _)
PickN(g, n, pool) == IF n = 0 THEN <<<<>>, g>> ELSE LET a == Pick(g, pool)  r == PickN(a[2], n - 1, pool) IN <<<<a[1]>> \o r[1], r[2]>>
GLong(g, pool) ==
    LET n == Between(g, 5, 11)  l == PickN(n[2], n[1], pool)  o == Pick(l[2], <<"sum", "sum", "prod">>)  c == Between(o[2], 0, 3)  p == <<o[1]>> \o l[1] IN
    <<CASE c[1] = 0 -> <<"mul", <<"add", X, Z>>, p>> [] c[1] = 1 -> <<"add", In(1), <<"mul", Y, p>>>> [] OTHER -> p, c[2]>>
GMix(g, lo, hi) == LET c == Coin(g, 10) IN IF c[1] THEN GLong(c[2], LongPool) ELSE GMixed(c[2], lo, hi)
Outer == AllFns \o <<"log", "abs", "sqrt", "exp", "sq", "inv", "log2">>
Apply1(f, p) ==
    CASE f = "log" -> <<"log", p>>
      [] f = "log2" -> <<"log", p, In(2)>>
      [] f = "abs" -> <<"abs", p>>
      [] f = "sqrt" -> <<"sqrt", p>>
      [] f = "exp" -> <<"pow", <<"e">>, p>>
      [] f = "sq" -> <<"pow", p, In(2)>>
      [] f = "inv" -> <<"div", In(1), p>>
      [] f \in {"asin", "acos"} -> <<"fn", f, <<"div", p, In(30)>>>>
      [] OTHER -> <<"fn", f, p>>
\* families: pairs, outer functions
RepFam == <<<<Len(RepOps), Len(Reps), Len(Reps)>>, <<Len(Outer), Len(Reps)>>>>
RepAt(i) ==
    LET f == FamAt(RepFam, i)  r == f[2] IN
    IF f[1] = 1 THEN <<RepOps[r[1]], Reps[r[2]], Reps[r[3]]>> ELSE Apply1(Outer[r[1]], Reps[r[2]])
NReps == FamSize(RepFam)

----------------------------------------------------------------------------
\* C04
\* every product of powers of small sums: (x+1)^a (x-y)^b (2x+3y+1)^c * k
C04Sums == <<<<"add", X, In(1)>>, <<"sub", X, Y>>, <<"sum", <<"mul", In(2), X>>, <<"mul", In(3), Y>>, In(1)>>, <<"add", <<"pow", X, In(2)>>, <<"mul", Fr(-1, 2), Y>>>>, <<"add", <<"fn", "sin", X>>, X>>>>
C04Coef == <<In(1), In(-1), In(2), Fr(-2, 3), X, <<"pow", Y, In(-1)>>, <<"add", Y, In(2)>>>>
\* something to expand inside of something else
C04Inner == <<<<"mul", X, <<"add", X, In(1)>>>>, <<"pow", <<"sub", X, Y>>, In(2)>>, <<"mul", <<"add", X, Y>>, <<"sub", <<"mul", In(2), X>>, In(3)>>>>, <<"neg", <<"mul", Y, <<"add", X, Y>>>>>>,
              <<"mul", <<"fn", "sin", X>>, <<"add", X, In(2)>>>>, <<"mul", <<"sqrt", X>>, <<"add", <<"sqrt", X>>, In(1)>>>>, <<"pow", <<"add", <<"pow", <<"e">>, X>>, In(1)>>, In(3)>>, <<"div", <<"add", X, In(1)>>, Y>>>>
C04Ctx == <<"sin", "cos", "tan", "sec", "atan", "log", "log2", "logb", "blog", "abs", "sqrt", "exp", "2x", "xx", "frac", "inv", "inv2", "times", "plus", "sumpow", "deep", "half">>
C04In(c, p) ==
    CASE c \in {"sin", "cos", "tan", "sec", "atan"} -> <<"fn", c, p>>
      [] c = "log" -> <<"log", p>> [] c = "log2" -> <<"log", p, In(2)>> [] c = "logb" -> <<"log", p, Y>> [] c = "blog" -> <<"log", X, p>> [] c = "abs" -> <<"abs", p>> [] c = "sqrt" -> <<"sqrt", p>>
      [] c = "exp" -> <<"pow", <<"e">>, p>> [] c = "2x" -> <<"pow", In(2), p>> [] c = "xx" -> <<"pow", X, p>> [] c = "frac" -> <<"pow", p, Fr(2, 3)>> [] c = "inv" -> <<"div", In(1), p>>
      [] c = "inv2" -> <<"pow", p, In(-2)>> [] c = "times" -> <<"mul", p, <<"fn", "cos", X>>>> [] c = "plus" -> <<"add", p, <<"log", X>>>> [] c = "sumpow" -> <<"pow", <<"add", <<"fn", "sin", p>>, In(1)>>, In(2)>>
      [] c = "deep" -> <<"fn", "cos", <<"log", <<"pow", <<"e">>, <<"mul", X, p>>>>>>>> [] c = "half" -> <<"mul", Y, <<"fn", "sin", <<"div", p, In(2)>>>>>>
\* high powers of short sums, powers of long sums, many factors
C04Big(k, n) ==
    LET abc == [i \in 1..(n + 2) |-> <<"mul", In(i), Sy(<<"a", "b", "c", "u", "v", "w", "x", "y", "z", "s", "t", "p", "q">>[i])>>] IN
    CASE k = 1 -> <<"pow", <<"add", X, In(1)>>, In(2 * n + 3)>>
      [] k = 2 -> <<"pow", <<"sub", <<"mul", In(2), X>>, <<"mul", Fr(1, 3), Y>>>>, In(n + 5)>>
      [] k = 3 -> <<"pow", <<"sum">> \o abc, In(2)>>
      [] k = 4 -> <<"pow", <<"sum", X, <<"neg", Y>>, In(2)>>, In(IF n > 6 THEN 8 ELSE n + 2)>>
      [] k = 5 -> <<"prod">> \o [i \in 1..n |-> <<"add", X, In(i - 3)>>]
      [] k = 6 -> <<"mul", <<"sum">> \o abc, <<"sum">> \o [i \in DOMAIN abc |-> IF i % 2 = 0 THEN abc[i] ELSE <<"neg", abc[i]>>]>>
      [] k = 7 -> <<"prod", <<"pow", <<"add", X, Y>>, In(n)>>, <<"pow", <<"sub", X, Y>>, In((n + 1) \div 2)>>, <<"pow", X, In(n + 4)>>>>
      [] k = 8 -> <<"pow", <<"add", <<"fn", "sin", X>>, <<"fn", "cos", X>>>>, In(n + 4)>>
      [] k = 9 -> <<"pow", <<"sum">> \o abc, In(IF n > 4 THEN 2 ELSE 3)>>
C04Fam == <<<<Len(C04Sums), 4, Len(C04Sums), 3, Len(C04Coef)>>, <<Len(C04Sums), 7, 3>>, <<Len(C04Ctx), Len(C04Inner)>>, <<Len(C04Ctx), Len(C04Ctx), Len(C04Inner)>>, <<9, 11>>>>
C04E(i) ==
    LET f == FamAt(C04Fam, i)  r == f[2] IN
    IF f[1] = 1
    THEN Call("expand", <<"prod", C04Coef[r[5]], <<"pow", C04Sums[r[1]], In(r[2] - 1)>>, <<"pow", C04Sums[r[3]], In(r[4] - 1)>>>>)
    ELSE IF f[1] = 5 THEN Call("expand", C04Big(r[1], r[2]))
    ELSE IF f[1] = 3 THEN Call("expand", C04In(C04Ctx[r[1]], C04Inner[r[2]]))
    ELSE IF f[1] = 4 THEN Call("expand", C04In(C04Ctx[r[1]], C04In(C04Ctx[r[2]], C04Inner[r[3]])))
    ELSE LET b == <<"pow", C04Sums[r[1]], In(r[2])>> IN
         Call("expand", CASE r[3] = 1 -> <<"sub", b, <<"add", X, In(1)>>>>
                          [] r[3] = 2 -> <<"mul", <<"neg", b>>, <<"sub", b, X>>>>
                          [] r[3] = 3 -> <<"pow", <<"add", b, Y>>, In(2)>>)
C04Profiles == <<
   [Base EXCEPT !.wexps = <<>>, !.ops = <<"add", "add", "sub", "mul", "mul", "mul", "neg", "ipow">>, !.exps = <<2, 2, 3>>],
   [Base EXCEPT !.wexps = <<>>, !.syms = <<"x", "y">>, !.ops = <<"add", "sub", "mul", "mul", "neg", "ipow", "sum", "prod">>, !.exps = <<2, 3, 4>>],
   [Base EXCEPT !.wexps = <<>>, !.syms = <<"x", "y">>, !.leaves = <<"sym", "sym", "int", "frac", "pi">>, !.ops = <<"add", "sub", "mul", "mul", "div", "ipow", "fn", "log", "sum">>],
   [Base EXCEPT !.wexps = <<>>, !.ops = <<"add", "sub", "mul", "mul", "div", "ipow", "rpow", "sqrt", "epow", "abs">>] >>
C04R(g) ==
    LET pf == Pick(g, C04Profiles)  d == Between(pf[2], 3, 5)  p == GExpr(d[2], d[1], pf[1])
        q == Pick(p[2], <<"self", "mul", "sq">>)
        s == GExpr(q[2], 2, pf[1])
    IN Call("expand", IF q[1] = "self" THEN p[1] ELSE IF q[1] = "mul" THEN <<"mul", <<"add", p[1], In(1)>>, s[1]>> ELSE <<"pow", <<"add", s[1], X>>, In(3)>>)

----------------------------------------------------------------------------
\* C05
SubsVals == <<X, Y, In(0), In(2), Fr(-1, 2), <<"add", X, Y>>, <<"mul", In(2), X>>, <<"neg", X>>, <<"pow", Y, In(2)>>, <<"fn", "sin", Y>>, Sy("u"), <<"pi">>, <<"log", X>>, <<"pow", <<"e">>, Y>>>>
GSubs(g) ==
    LET n == Between(g, 1, 3)
        ks == Shuffle(n[2], <<"x", "y", "z", "w", "b">>)
        v1 == Pick(ks[2], SubsVals)
        v2 == Pick(v1[2], SubsVals)
        v3 == GExpr(v2[2], 2, Base)
        sw == Coin(v3[2], 15)
    IN <<IF sw[1] THEN <<<<"x", Y>>, <<"y", X>>>>
         ELSE SubSeq(<<<<ks[1][1], v1[1]>>, <<ks[1][2], v2[1]>>, <<ks[1][3], v3[1]>>>>, 1, n[1]), sw[2]>>
C05Sets == <<<<<<"x", Y>>, <<"y", X>>>>, <<<<"x", In(2)>>>>, <<<<"x", <<"add", X, In(1)>>>>>>, <<<<"w", In(5)>>>>, <<<<"x", X>>>>, <<<<"y", <<"mul", X, X>>>>, <<"b", In(10)>>>>,
             <<<<"x", <<"neg", Y>>>>>>, <<<<"x", <<"pow", <<"e">>, Y>>>>, <<"y", Fr(1, 3)>>>>, <<<<"x", <<"add", Y, Sy("z")>>>>, <<"y", X>>, <<"b", X>>>>>>
\* many symbols at once, permuted among each other
C05Six == <<"a", "b", "c", "x", "y", "z">>
C05Turn(k, n) == [i \in 1..n |-> <<C05Six[i], IF k = 7 THEN Sy(C05Six[n + 1 - i]) ELSE IF k = 8 THEN <<"mul", In(i + 1), Sy(C05Six[(i % n) + 1])>> ELSE Sy(C05Six[((i + k - 1) % n) + 1])>>]
C05Long(k) == LET t(i) == <<"mul", In(2 * i + 1), Sy(C05Six[i])>> IN
    CASE k = 1 -> <<"sum">> \o [i \in 1..6 |-> t(i)] [] k = 2 -> <<"prod">> \o [i \in 1..6 |-> <<"pow", Sy(C05Six[i]), In(i)>>] [] k = 3 -> <<"sum">> \o [i \in 1..6 |-> <<"fn", AllFns[i], <<"div", t(i), In(40)>>>>]
      [] k = 4 -> <<"div", <<"sum", t(1), t(2), t(3)>>, <<"sum", t(4), t(5), t(6)>>>> [] k = 5 -> <<"pow", <<"sum", Sy("a"), Sy("b"), In(3)>>, <<"mul", Sy("c"), Sy("x")>>>> [] k = 6 -> <<"log", <<"abs", <<"sub", <<"prod", X, Y, Z>>, Sy("a")>>>>, Sy("b")>>
C05Fam == <<<<Len(Reps), Len(C05Sets)>>, <<Len(Outer), Len(Reps), Len(C05Sets)>>, <<6, 5, 8>>>>
C05E(i) ==
    LET f == FamAt(C05Fam, i)  r == f[2] IN
    IF f[1] = 1 THEN CallA("subs", Reps[r[1]], C05Sets[r[2]]) ELSE IF f[1] = 3 THEN CallA("subs", C05Long(r[1]), C05Turn(r[3], r[2] + 1)) ELSE CallA("subs", Apply1(Outer[r[1]], Reps[r[2]]), C05Sets[r[3]])
C05R(g) == LET p == GMix(g, 2, 4)  s == GSubs(p[2]) IN CallA("subs", p[1], s[1])

----------------------------------------------------------------------------
\* C06
NumVals == <<In(1), In(2), In(-3), Fr(1, 2), Fr(-7, 3), <<"flt", "0.25">>, <<"flt", "-1.75">>, <<"flt", "3.125">>, <<"pi">>, <<"e">>, Fr(22, 7), In(10), Fr(1, 1000), In(0)>>
C06Sets == <<<<<<"x", Fr(1, 2)>>, <<"y", In(2)>>, <<"b", In(3)>>>>, <<<<"x", <<"flt", "0.75">>>>, <<"y", <<"flt", "1.25">>>>, <<"b", <<"flt", "2.5">>>>>>,
             <<<<"x", In(-2)>>, <<"y", Fr(-1, 3)>>, <<"b", In(2)>>>>, <<<<"x", <<"pi">>>>, <<"y", <<"e">>>>, <<"b", <<"e">>>>>>, <<<<"x", In(3)>>>>, <<<<"y", <<"flt", "0.5">>>>>>, <<<<"x", <<"add", Y, In(1)>>>>, <<"b", In(2)>>>>>>
\* numbers beyond the range or the precision of floats
Huge == LET z == "0000000000000000000000000000000000000000" IN z \o z \o z \o z \o z \o z \o z \o z \o z \o z
C06Big == <<<<"bigq", "1" \o Huge \o "1", "3" \o Huge \o "7">>, <<"bigq", "-7" \o Huge, "2" \o Huge \o "1">>, <<"bigq", "100000000000000000000001", "7">>, <<"bigq", "3", "1000000000000000000000000000000000007">>,
           <<"bigq", "12345678901234567890123456789", "12345678901234567890123456788">>, <<"bigq", "9007199254740993", "2">>, <<"pow", In(2), In(1000)>>, <<"pow", In(3), In(-500)>>>>
\* large arguments that are floats exactly, of functions that are well defined there
C06Far == <<In(1001), In(-65537), In(1000003), <<"bigq", "1000000000001", "1">>, <<"bigq", "-4503599627370497", "1">>, <<"bigq", "9007199254740991", "2">>, <<"flt", "987654321.5">>, <<"flt", "-123456789012.25">>, <<"flt", "1e15">>, <<"pow", In(2), In(60)>>>>
C06FarFns == <<<<"fn", "sin", X>>, <<"fn", "cos", X>>, <<"fn", "tan", X>>, <<"fn", "sec", X>>, <<"fn", "csc", X>>, <<"fn", "cot", X>>, <<"fn", "atan", X>>, <<"log", <<"abs", X>>>>, <<"sqrt", <<"abs", X>>>>, <<"mul", Y, <<"fn", "sin", <<"neg", X>>>>>>,
               <<"fn", "cos", <<"div", X, In(2)>>>>, <<"pow", <<"fn", "sin", X>>, In(2)>>, <<"add", <<"fn", "sin", X>>, <<"fn", "cos", X>>>>, <<"pow", <<"abs", X>>, Fr(1, 4)>>, <<"fn", "asin", <<"div", In(1), X>>>>, <<"div", Y, X>>>>
C06Fam == <<<<Len(C06FarFns), Len(C06Far)>>, <<Len(C06Big), 14>>, <<Len(Reps), Len(C06Sets)>>, <<Len(Outer), Len(Reps), Len(C06Sets)>>, <<Len(RepOps), Len(Reps), Len(Reps), 2>>>>
C06E(i) ==
    LET f == FamAt(C06Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> CallA("evalf", C06FarFns[r[1]], <<<<"x", C06Far[r[2]]>>, <<"y", In(3)>>>>)
      [] f[1] = 2 -> LET b == C06Big[r[1]] IN
              CallA("evalf", CASE r[2] = 1 -> b [] r[2] = 2 -> <<"add", b, X>> [] r[2] = 3 -> <<"mul", b, X>> [] r[2] = 4 -> <<"fn", "sin", b>> [] r[2] = 5 -> <<"fn", "atan", <<"mul", b, X>>>> [] r[2] = 6 -> <<"sqrt", <<"mul", b, b>>>>
                          [] r[2] = 7 -> <<"log", <<"abs", b>>>> [] r[2] = 8 -> <<"pow", X, b>> [] r[2] = 9 -> <<"abs", b>> [] r[2] = 10 -> <<"pow", <<"e">>, <<"neg", <<"abs", b>>>>>>
                          [] r[2] = 11 -> <<"sub", <<"mul", b, X>>, <<"mul", b, Y>>>> [] r[2] = 12 -> <<"div", X, b>> [] r[2] = 13 -> <<"mul", b, <<"pi">>>> [] r[2] = 14 -> <<"mul", b, <<"fn", "cos", X>>>>, C06Sets[1])
      [] f[1] = 3 -> CallA("evalf", Reps[r[1]], C06Sets[r[2]])
      [] f[1] = 4 -> CallA("evalf", Apply1(Outer[r[1]], Reps[r[2]]), C06Sets[r[3]])
      [] f[1] = 5 -> CallA("evalf", <<RepOps[r[1]], Reps[r[2]], Reps[r[3]]>>, C06Sets[r[4]])
C06R(g) ==
    LET p == GMix(g, 2, 4)
        a == Pick(p[2], NumVals)  b == Pick(a[2], NumVals)  c == Pick(b[2], NumVals)
        k == Between(c[2], 0, 9)
    IN CallA("evalf", p[1], IF k[1] = 0 THEN <<>> ELSE IF k[1] = 1 THEN <<<<"x", a[1]>>>> ELSE <<<<"x", a[1]>>, <<"y", b[1]>>, <<"z", c[1]>>, <<"b", In(3)>>>>)

----------------------------------------------------------------------------
\* C07
C07E(i) == CallA("diff", RepAt(i \div 2), <<IF i % 2 = 0 THEN "x" ELSE "y">>)
C07Vars == <<<<"x">>, <<"x">>, <<"y">>, <<"x", "x">>, <<"x", "y">>, <<"w">>, <<"x", "x", "x">>>>
C07R(g) == LET p == GMix(g, 2, 4)  v == Pick(p[2], C07Vars) IN CallA("diff", p[1], v[1])

----------------------------------------------------------------------------
\* C08
C08Fns == <<"simplify", "trig_simplify", "pythag", "recip", "expand_logs", "onefrac", "onefrac0", "factor", "sectan", "combine", "numden", "constfactor">>
Arg == <<X, <<"mul", In(2), X>>, <<"add", X, Y>>>>
Sq(f, a) == <<"pow", <<"fn", f, a>>, In(2)>>
C08Terms == <<In(1), In(-1), In(3), X, Sq("sin", X), Sq("cos", X), Sq("tan", X), Sq("sec", X), Sq("csc", X), Sq("cot", X),
              <<"neg", Sq("sin", X)>>, <<"neg", Sq("cos", X)>>, <<"neg", Sq("tan", X)>>, <<"neg", Sq("sec", X)>>, <<"mul", In(3), Sq("sin", X)>>, <<"mul", In(3), Sq("cos", X)>>,
              <<"mul", Y, Sq("sin", X)>>, <<"mul", Y, Sq("cos", X)>>, <<"mul", X, Sq("tan", X)>>, <<"pow", <<"fn", "sin", X>>, In(4)>>, <<"pow", <<"fn", "cos", X>>, In(4)>>, <<"pow", <<"fn", "sec", X>>, In(4)>>,
              <<"pow", <<"fn", "tan", X>>, In(4)>>, <<"mul", <<"fn", "sin", X>>, <<"fn", "cos", X>>>>, <<"div", <<"fn", "sin", X>>, <<"fn", "cos", X>>>>, <<"mul", <<"fn", "sec", X>>, <<"fn", "tan", X>>>>,
              <<"div", In(1), <<"fn", "cos", X>>>>, <<"div", In(1), Sq("sin", X)>>, Sq("sin", <<"mul", In(2), X>>), Sq("cos", <<"mul", In(2), X>>), <<"fn", "sin", X>>, <<"fn", "cos", <<"mul", In(2), X>>>>,
              <<"div", <<"fn", "cos", X>>, <<"add", In(1), <<"fn", "sin", X>>>>>>, <<"mul", <<"fn", "cos", X>>, <<"fn", "cos", <<"mul", In(2), X>>>>>>, <<"mul", <<"fn", "sin", X>>, <<"fn", "sin", <<"mul", In(2), X>>>>>>>>
C08Logs == <<X, <<"mul", X, Y>>, <<"div", X, Y>>, <<"pow", X, In(3)>>, <<"pow", X, Y>>, <<"add", <<"mul", X, Y>>, X>>, <<"mul", In(2), X>>, <<"sqrt", <<"add", X, Y>>>>, <<"fn", "sec", X>>, <<"fn", "cot", X>>,
             <<"abs", <<"mul", X, Y>>>>, <<"abs", <<"pow", X, In(-2)>>>>, <<"abs", <<"add", <<"pow", X, In(2)>>, <<"mul", X, Y>>>>>>, <<"add", X, In(1)>>, <<"pow", <<"mul", X, Y>>, In(2)>>, <<"abs", <<"fn", "sec", X>>>>>>
\* products of squares of two functions of different arguments
SixFns == <<"sin", "cos", "tan", "sec", "csc", "cot">>
C08Cof(k, v) == IF k <= 6 THEN Sq(SixFns[k], v) ELSE IF k = 7 THEN Sq("cos", <<"mul", In(2), v>>) ELSE <<"mul", v, Sq("cos", <<"add", v, Sy("z")>>)>>
\* factors of products to be taken apart
C08Facs == Reps \o <<Fr(-7, 3), In(-2), <<"pow", X, Fr(-3, 2)>>, <<"pow", X, <<"neg", Y>>>>, <<"pow", <<"e">>, <<"neg", X>>>>, <<"sqrt", In(2)>>, <<"pow", In(2), Fr(-1, 2)>>, <<"pow", <<"pi">>, In(-1)>>, <<"pow", In(3), <<"mul", In(-2), X>>>>,
                  <<"pow", <<"add", X, Y>>, In(-2)>>, <<"pow", <<"fn", "cos", X>>, In(-1)>>, <<"pow", <<"log", In(3)>>, In(-1)>>, <<"fn", "sin", In(2)>>, <<"pow", <<"add", In(1), <<"sqrt", In(2)>>>>, In(-1)>>>>
C08Dens == <<In(3), In(-2), <<"pi">>, <<"e">>, <<"sqrt", In(2)>>, <<"log", In(3)>>, X, <<"pow", X, In(2)>>, <<"add", X, Y>>, <<"mul", In(3), X>>, <<"fn", "cos", X>>, <<"pow", <<"add", In(1), X>>, In(-2)>>>>
C08Nums == <<In(1), In(5), <<"pi">>, X, Y, <<"add", X, In(1)>>, <<"sqrt", In(3)>>, <<"fn", "sin", X>>>>
C08Fam == <<<<2, Len(C08Terms), Len(C08Terms), 3>>, <<2, 5, Len(C08Logs), 4>>, <<3, Len(C08Terms), Len(C08Terms)>>, <<4, Len(Reps), Len(Reps)>>, <<6, 6, 8, 5, 2>>, <<2, Len(C08Facs), Len(C08Facs)>>, <<2, Len(C08Dens), Len(C08Nums), Len(C08Dens)>>>>
C08E(i) ==
    LET f == FamAt(C08Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> Call(<<"simplify", "pythag">>[r[1]],
                          CASE r[4] = 1 -> <<"add", C08Terms[r[2]], C08Terms[r[3]]>>
                            [] r[4] = 2 -> <<"sub", C08Terms[r[2]], C08Terms[r[3]]>>
                            [] r[4] = 3 -> <<"sum", C08Terms[r[2]], <<"neg", C08Terms[r[3]]>>, Y>>)
      [] f[1] = 2 -> LET l == <<"log", C08Logs[r[3]], <<<<"e">>, In(2), In(10), Sy("b"), Fr(1, 2)>>[r[2]]>> IN
                     Call(<<"simplify", "expand_logs">>[r[1]], CASE r[4] = 1 -> l [] r[4] = 2 -> <<"mul", X, l>> [] r[4] = 3 -> <<"sub", l, <<"log", X>>>> [] r[4] = 4 -> <<"pow", l, In(2)>>)
      [] f[1] = 3 -> (CASE r[1] = 1 -> Call("simplify", <<"mul", C08Terms[r[2]], C08Terms[r[3]]>>)
                       [] r[1] = 2 -> Call("simplify", <<"div", C08Terms[r[2]], <<"add", C08Terms[r[3]], X>>>>)
                       [] r[1] = 3 -> Call("combine", <<"div", C08Terms[r[2]], C08Terms[r[3]]>>))
      [] f[1] = 4 -> (CASE r[1] = 1 -> Call("onefrac", <<"add", Reps[r[2]], <<"div", In(1), Reps[r[3]]>>>>)
                       [] r[1] = 2 -> Call("onefrac", <<"sum", <<"div", X, Reps[r[2]]>>, <<"div", Y, <<"mul", X, Reps[r[3]]>>>>, Fr(1, 3)>>)
                       [] r[1] = 3 -> Call("factor", <<"add", <<"mul", Reps[r[2]], Reps[r[3]]>>, <<"mul", <<"pow", Reps[r[2]], In(2)>>, Y>>>>)
                       [] r[1] = 4 -> Call("factor", <<"add", <<"mul", In(6), <<"mul", Reps[r[2]], X>>>>, <<"mul", In(4), <<"mul", Reps[r[3]], <<"pow", X, In(2)>>>>>>>>))
      [] f[1] = 6 -> LET c == C08Facs[((r[2] * 7 + r[3] * 3) % Len(C08Facs)) + 1] IN
                     Call(<<"numden", "constfactor">>[r[1]], IF (r[2] + r[3]) % 3 = 0 THEN <<"div", C08Facs[r[2]], C08Facs[r[3]]>> ELSE <<"prod", C08Facs[r[2]], C08Facs[r[3]], c>>)
      [] f[1] = 7 -> \* fractions with constants among the numerators and denominators
                     LET n2 == C08Nums[((r[3] * 3 + r[4]) % Len(C08Nums)) + 1]  d3 == C08Dens[((r[2] * 5 + r[3] + r[4]) % Len(C08Dens)) + 1] IN
                     Call(<<"onefrac", "onefrac0">>[r[1]], <<"sum", <<"div", C08Nums[r[3]], C08Dens[r[2]]>>, <<"div", n2, C08Dens[r[4]]>>, <<"div", Y, <<"mul", d3, C08Dens[r[4]]>>>>>>)
      [] f[1] = 5 -> LET v == IF r[5] = 1 THEN X ELSE Y  c == C08Cof(r[3], IF r[5] = 1 THEN Y ELSE X)
                         a == <<"mul", c, Sq(SixFns[r[1]], v)>>  b == <<"mul", c, Sq(SixFns[r[2]], v)>> IN
                     Call(IF (r[1] + r[2]) % 2 = 0 THEN "simplify" ELSE "pythag", CASE r[4] = 1 -> <<"add", a, b>> [] r[4] = 2 -> <<"sub", a, b>> [] r[4] = 3 -> <<"sum", c, a, b>> [] r[4] = 4 -> <<"sum", a, <<"neg", c>>, In(r[2])>> [] r[4] = 5 -> <<"sum", a, b, <<"mul", In(2), Sq(SixFns[r[2]], v)>>>>)
C08Profiles == <<
   [Base EXCEPT !.wexps = <<>>, !.syms = <<"x">>, !.leaves = <<"sym", "sym", "int">>, !.ops = <<"add", "add", "sub", "mul", "mul", "div", "ipow", "fn", "fn", "fn">>],
   [Base EXCEPT !.wexps = <<>>, !.syms = <<"x", "y">>, !.ops = <<"add", "sub", "mul", "div", "ipow", "fn", "fn", "log", "sqrt", "abs">>],
   [Base EXCEPT !.wexps = <<>>, !.syms = <<"x", "y">>, !.ops = <<"add", "add", "sub", "mul", "mul", "div", "div", "ipow">>],
   [Base EXCEPT !.wexps = <<>>, !.syms = <<"x", "y">>, !.fns = AllFns, !.leaves = <<"sym", "sym", "int", "frac", "pi", "e">>, !.ops = <<"add", "sub", "mul", "div", "ipow", "fn", "log", "logb", "epow", "abs">>],
   [Base EXCEPT !.wexps = <<>>, !.syms = <<"x">>, !.leaves = <<"sym", "int", "int">>, !.exps = <<2, 2, 2, 4, -2>>, !.ops = <<"add", "sub", "sum", "sum", "ipow", "ipow", "fn", "fn", "mul">>] >>
\* sums of coefficient times powers of trigonometric functions of one argument
GTrigTerm(g) ==
    LET c == Pick(g, <<In(1), In(1), In(-1), In(2), In(-3), Fr(1, 2), X, Y>>)
        f == Pick(c[2], TrigFns)
        n == Pick(f[2], <<1, 2, 2, 2, 4, -2, -1, 3>>)
        a == Pick(n[2], <<X, X, X, X, <<"mul", In(2), X>>, <<"add", X, Y>>>>)
        f2 == Pick(a[2], TrigFns)
        two == Coin(f2[2], 30)
        b == <<"mul", c[1], <<"pow", <<"fn", f[1], a[1]>>, In(n[1])>>>>
    IN <<IF two[1] THEN <<"mul", b, <<"fn", f2[1], a[1]>>>> ELSE b, two[2]>>
GTrigSum(g) ==
    LET n == Between(g, 2, 4)
        t1 == GTrigTerm(n[2])  t2 == GTrigTerm(t1[2])  t3 == GTrigTerm(t2[2])
        c == Pick(t3[2], <<In(1), In(-1), In(2), X, Y, <<"mul", In(-1), Y>>>>)
        k == Between(c[2], 0, 2)
    IN <<<<"sum">> \o (CASE n[1] = 2 -> <<t1[1], c[1]>> [] n[1] = 3 -> <<t1[1], t2[1], c[1]>> [] n[1] = 4 -> <<t1[1], t2[1], t3[1]>>), k[2]>>
C08R(g) ==
    LET k == Between(g, 0, 9)
        f == Pick(k[2], C08Fns)
    IN IF k[1] < 4 THEN LET p == GTrigSum(f[2]) IN Call(f[1], p[1])
       ELSE IF k[1] = 4 THEN LET p == GLong(f[2], C08Terms) IN Call(f[1], p[1])
       ELSE LET pf == Pick(f[2], C08Profiles)  d == Between(pf[2], 2, 4)  p == GExpr(d[2], d[1], pf[1]) IN Call(f[1], p[1])

----------------------------------------------------------------------------
\* C22
PtsArgs == <<X, <<"mul", In(2), X>>, <<"mul", In(3), X>>, <<"add", X, Y>>, <<"neg", X>>, <<"div", X, In(2)>>, <<"sub", X, Y>>>>
SC == <<"sin", "cos">>
PtsCoef == <<In(1), In(-1), In(3), Fr(2, 3), <<"pi">>, <<"sqrt", In(2)>>, Y>>
\* coefficient * f(a)^m * g(b)^n
C22Fam == <<<<2, 4, 2, 4, 7, 7>>, <<2, 2, 2, 4, 4>>, <<2, 8, Len(PtsCoef)>>, <<2, 2, 2, 2, 6>>, <<2, 2, 6, 2, 3, 2>>>>
C22Four == <<<<1, 2, 3, 4>>, <<4, 1, 5, 2>>, <<1, 1, 2, 3>>, <<6, 7, 4, 1>>, <<2, 2, 2, 2>>, <<3, 6, 1, 7>>>>
SCp(f, a, n) == <<"pow", <<"fn", f, a>>, In(n)>>
Pure(p) == [m |-> "call", f |-> "pts", p |-> p, pure |-> TRUE]
C22E(i) ==
    LET f == FamAt(C22Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> Pure(<<"prod", PtsCoef[((r[5] + r[6]) % 4) + 1], SCp(SC[r[1]], PtsArgs[r[5]], r[2]), SCp(SC[r[3]], PtsArgs[r[6]], r[4])>>)
      [] f[1] = 2 -> Call("pts", <<"prod", SCp(SC[r[1]], PtsArgs[r[4]], 1), SCp(SC[r[2]], PtsArgs[r[5]], 1), SCp(SC[r[3]], X, 2)>>)
      [] f[1] = 3 -> Call("pts", <<"mul", PtsCoef[r[3]], SCp(SC[r[1]], X, r[2] + 1)>>)
      [] f[1] = 5 -> Pure(<<"mul", SCp(SC[r[1]], PtsArgs[r[5]], r[3] + 3), SCp(SC[r[2]], PtsArgs[r[6] + 2], r[4])>>)
      [] f[1] = 4 -> LET a == C22Four[r[5]]  t == [k \in 1..4 |-> SCp(SC[r[k]], PtsArgs[a[k]], 1)] IN
                     Call("pts", <<"prod">> \o t \o (IF r[1] = r[4] THEN <<PtsCoef[r[5]]>> ELSE <<>>) \o (IF r[2] # r[3] THEN <<SCp(SC[r[2]], Y, 1)>> ELSE <<>>))
GSC(g) == LET f == Pick(g, SC)  a == Pick(f[2], PtsArgs)  n == Pick(a[2], <<1, 1, 1, 2, 2, 3, 4>>) IN <<SCp(f[1], a[1], n[1]), n[2]>>
C22R(g) ==
    LET k == Between(g, 0, 4)
        n == Pick(k[2], <<1, 2, 2, 3, 3, 4, 5>>)
        c == Pick(n[2], PtsCoef)
        a == GSC(c[2])  b == GSC(a[2])  d == GSC(b[2])  q == GSC(d[2])  h == GSC(q[2])
        Low(w) == IF n[1] > 3 THEN SCp(w[2][2], w[2][3], 1) ELSE w
        t == <<"prod", c[1]>> \o SubSeq(<<Low(a[1]), Low(b[1]), Low(d[1]), Low(q[1]), Low(h[1])>>, 1, n[1])
        s == Pick(h[2], <<X, Y, <<"fn", "tan", X>>, <<"log", X>>, In(2)>>)
        c2 == Pick(s[2], PtsCoef)
    IN CASE k[1] <= 1 -> Call("pts", t)
         [] k[1] = 2 -> Call("pts", <<"mul", t, s[1]>>)
         [] OTHER -> Call("ptsum", <<"sum", t, <<"prod", c2[1], q[1], h[1]>>, s[1]>>)
=============================================================================
