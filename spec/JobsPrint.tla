----------------------------- MODULE JobsPrint -----------------------------
(* C19 printed form, C20 LaTeX *)
EXTENDS JobsSess

PrintJob(lang, p) == [m |-> "print", f |-> lang, p |-> p]
Alpha == Sy("alpha")
\* every shape that needs, or must not get, brackets somewhere
Shapes == <<
   In(2), In(-3), In(12), In(0), In(1), In(-1), Fr(1, 2), Fr(-2, 3), Fr(10, 7), <<"flt", "0.5">>, <<"flt", "-2.5">>, <<"flt", "12.0">>, <<"pi">>, <<"e">>, <<"neg", <<"pi">>>>,
   X, Y, Alpha, Sy("x_1"), <<"neg", X>>, <<"neg", Alpha>>, <<"add", X, In(1)>>, <<"sub", X, Alpha>>, <<"sub", In(1), X>>, <<"neg", <<"add", X, Y>>>>,
   <<"mul", X, Y>>, <<"mul", In(-2), X>>, <<"mul", In(2), Alpha>>, <<"div", X, Y>>, <<"div", X, In(2)>>, <<"mul", Fr(-3, 4), Alpha>>, <<"div", In(1), X>>, <<"div", In(-1), X>>, <<"div", In(2), <<"mul", X, Alpha>>>>,
   <<"div", <<"add", X, In(1)>>, <<"sub", X, Y>>>>, <<"mul", <<"add", X, In(1)>>, <<"add", Y, In(2)>>>>, <<"mul", <<"pow", <<"add", X, In(1)>>, In(2)>>, <<"add", Y, In(2)>>>>,
   <<"pow", X, In(2)>>, <<"pow", X, In(12)>>, <<"pow", X, In(-2)>>, <<"pow", X, Fr(1, 3)>>, <<"pow", X, Fr(-1, 3)>>, <<"pow", X, Fr(-3, 2)>>, <<"sqrt", X>>, <<"pow", X, Fr(-1, 2)>>, <<"pow", X, <<"flt", "0.5">>>>, <<"pow", X, <<"flt", "-1.5">>>>,
   <<"pow", X, Y>>, <<"pow", X, Alpha>>, <<"pow", Alpha, In(2)>>, <<"pow", X, <<"neg", Y>>>>, <<"pow", X, <<"div", In(1), Y>>>>, <<"pow", X, <<"add", Y, In(1)>>>>, <<"pow", X, <<"pow", Y, In(2)>>>>, <<"pow", X, <<"mul", In(2), Y>>>>,
   <<"pow", In(2), X>>, <<"pow", Fr(1, 2), X>>, <<"pow", In(-2), X>>, <<"pow", <<"e">>, X>>, <<"pow", <<"e">>, <<"neg", X>>>>, <<"pow", <<"pi">>, X>>, <<"pow", <<"flt", "2.5">>, X>>, <<"pow", <<"neg", X>>, Y>>,
   <<"pow", <<"add", X, In(1)>>, In(2)>>, <<"pow", <<"add", X, In(1)>>, In(-1)>>, <<"pow", <<"mul", X, <<"add", Y, In(1)>>>>, Fr(1, 2)>>, <<"sqrt", In(2)>>, <<"pow", In(3), Fr(2, 3)>>, <<"pow", <<"abs", X>>, Y>>, <<"pow", <<"div", X, Y>>, Alpha>>,
   <<"fn", "sin", X>>, <<"fn", "sin", Alpha>>, <<"pow", <<"fn", "cos", X>>, In(2)>>, <<"pow", <<"fn", "tan", X>>, In(-1)>>, <<"fn", "atan", X>>, <<"fn", "asin", <<"div", X, In(20)>>>>, <<"fn", "sec", <<"neg", X>>>>, <<"fn", "csc", <<"mul", In(2), X>>>>,
   <<"fn", "cot", <<"mul", <<"add", X, In(1)>>, <<"add", Y, In(2)>>>>>>, <<"fn", "acos", <<"div", X, In(20)>>>>,
   <<"log", X>>, <<"log", X, In(2)>>, <<"log", X, In(10)>>, <<"log", X, Y>>, <<"log", X, Fr(1, 2)>>, <<"log", X, <<"add", Y, In(1)>>>>, <<"log", <<"abs", X>>>>, <<"pow", <<"log", X>>, In(2)>>, <<"log", X, <<"pow", Y, In(2)>>>>,
   <<"abs", X>>, <<"abs", <<"sub", X, Y>>>>, <<"abs", <<"mul", X, Y>>>>, <<"abs", <<"add", <<"abs", X>>, In(-1)>>>>, <<"abs", <<"pow", X, In(3)>>>> >>
NSh == Len(Shapes)
Ctx1 == <<"neg", "sq", "inv", "sqrt", "invsqrt", "exp", "sin", "log", "log2", "logb", "blog", "abs", "cube", "basex", "expx", "half", "m1", "plus", "minus", "times", "over", "self">>
InCtx(c, p) ==
    CASE c = "neg" -> <<"neg", p>> [] c = "sq" -> <<"pow", p, In(2)>> [] c = "inv" -> <<"div", In(1), p>> [] c = "sqrt" -> <<"sqrt", p>> [] c = "invsqrt" -> <<"pow", p, Fr(-1, 2)>>
      [] c = "exp" -> <<"pow", <<"e">>, p>> [] c = "sin" -> <<"fn", "sin", p>> [] c = "log" -> <<"log", p>> [] c = "log2" -> <<"log", p, In(2)>> [] c = "logb" -> <<"log", p, Y>> [] c = "blog" -> <<"log", Y, p>>
      [] c = "abs" -> <<"abs", p>> [] c = "cube" -> <<"pow", p, In(-3)>> [] c = "basex" -> <<"pow", p, Sy("n")>> [] c = "expx" -> <<"pow", Sy("n"), p>> [] c = "half" -> <<"mul", Fr(-3, 2), p>>
      [] c = "m1" -> <<"mul", p, <<"sub", p, Sy("c")>>>> [] c = "plus" -> <<"add", Sy("n"), p>> [] c = "minus" -> <<"sub", Sy("n"), p>> [] c = "times" -> <<"mul", Sy("n"), p>> [] c = "over" -> <<"div", Sy("n"), p>> [] OTHER -> p
BinOps == <<"add", "sub", "mul", "div", "pow">>
\* products (and sums of two of them) with several factors: signs, fractions, roots, powers of negative numbers
Factors == <<In(-1), In(3), Fr(-2, 3), <<"flt", "-0.5">>, <<"pow", In(-1), Fr(1, 3)>>, <<"pow", In(-2), Fr(-2, 3)>>, <<"pow", In(-1), X>>, <<"sqrt", In(2)>>, <<"pow", In(3), Fr(-1, 2)>>, X, Alpha, <<"pow", Y, In(-1)>>, <<"pow", X, In(-3)>>,
             <<"pow", X, Fr(-1, 2)>>, <<"sub", X, Y>>, <<"pow", <<"add", Y, In(1)>>, In(-2)>>, <<"fn", "sin", X>>, <<"pow", <<"fn", "cos", Y>>, In(-2)>>, <<"log", X>>, <<"abs", Y>>, <<"pow", <<"e">>, X>>, <<"pow", In(2), <<"neg", X>>>>, <<"pi">>>>
NFac == Len(Factors)
Triple(a, b, c) == <<"prod", Factors[a], Factors[b], Factors[c]>>
PrintFam == <<<<Len(Ctx1), NSh>>, <<2, NFac, NFac>>, <<NFac, NFac, NFac>>, <<Len(BinOps), NSh, NSh>>, <<Len(Ctx1), Len(Ctx1), NSh>>>>
NPrintAlways == FamSize(SubSeq(PrintFam, 1, 2))
PrintE(lang, i) ==
    LET f == FamAt(PrintFam, i)  r == f[2] IN
    CASE f[1] = 1 -> PrintJob(lang, InCtx(Ctx1[r[1]], Shapes[r[2]]))
      [] f[1] = 2 -> LET p == Triple(r[2], r[3], ((r[2] + 3 * r[3]) % NFac) + 1) IN PrintJob(lang, IF r[1] = 1 THEN p ELSE <<"sub", Triple(r[3], 10, r[2]), p>>)
      [] f[1] = 3 -> PrintJob(lang, Triple(r[1], r[2], r[3]))
      [] f[1] = 4 -> PrintJob(lang, <<BinOps[r[1]], Shapes[r[2]], Shapes[r[3]]>>)
      [] f[1] = 5 -> PrintJob(lang, InCtx(Ctx1[r[2]], InCtx(Ctx1[r[1]], Shapes[r[3]])))
\* random contexts around random shapes
RECURSIVE GPrint(_, _)
GPrint(g, d) ==
    IF d <= 0 THEN Pick(g, Shapes)
    ELSE LET k == Between(g, 0, 2) IN
         IF k[1] = 0 THEN LET c == Pick(k[2], Ctx1)  a == GPrint(c[2], d - 1) IN <<InCtx(c[1], a[1]), a[2]>>
         ELSE LET o == Pick(k[2], <<"add", "sub", "mul", "div", "add", "mul", "pow">>)  a == GPrint(o[2], d - 1)  b == GPrint(a[2], d - 2)
                  nd == Coin(b[2], 50) IN
              <<IF nd[1] THEN <<o[1], a[1], b[1]>> ELSE <<o[1], b[1], a[1]>>, nd[2]>>
PrintR(lang, g) ==
    LET c == Between(g, 0, 3) IN
    IF c[1] = 0 THEN LET p == GMix(c[2], 3, 5) IN PrintJob(lang, p[1]) ELSE LET d == Between(c[2], 2, 4)  p == GPrint(d[2], d[1]) IN PrintJob(lang, p[1])
=============================================================================
