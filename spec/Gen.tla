-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Programs: finite compositions of calls of the library's constructors.   *)
(* A program is a tree  <<op, child, ..., child>>  over the leaves          *)
(*   <<"sym", name>> <<"int", n>> <<"frac", n, d>> <<"flt", "0.5">>          *)
(*   <<"pi">> <<"e">> <<"inf">>                                             *)
(*   <<"pint", n>> <<"pfrac", n, d>> <<"pflt", "0.5">>  plain Python numbers *)
(* and the operations                                                      *)
(*   add sub mul div pow neg sqrt sum(n-ary) prod(n-ary)                     *)
(*   <<"fn", f, child>>  log (one or two children)  abs                      *)
(* A profile says which of them are used.                                   *)
(***************************************************************************)
EXTENDS Rand

Sy(n) == <<"sym", n>>
In(n) == <<"int", n>>
Fr(n, d) == <<"frac", n, d>>
X == Sy("x")
Y == Sy("y")
Z == Sy("z")

TrigFns == <<"sin", "cos", "tan", "sec", "csc", "cot">>
InvFns == <<"asin", "acos", "atan">>
AllFns == TrigFns \o InvFns

Rationals == <<<<1, 2>>, <<1, 3>>, <<2, 3>>, <<3, 2>>, <<-1, 2>>, <<-3, 4>>, <<5, 2>>, <<-2, 3>>, <<1, 4>>, <<7, 5>>, <<-5, 3>>, <<1, 6>>>>
Floats == <<"0.5", "2.5", "-1.25", "0.1", "3.0", "-0.75", "1.5">>

\* the default profile
Base == [ leaves |-> <<"sym", "sym", "sym", "sym", "int", "int", "frac">>,
          syms   |-> <<"x", "y", "z">>,
          ints   |-> <<-3, -2, -1, 0, 1, 2, 3, 4, 5>>,
          ops    |-> <<"add", "add", "sub", "mul", "mul", "div", "neg", "ipow", "ipow">>,
          exps   |-> <<-3, -2, -1, 2, 2, 3, 4>>,
          wide   |-> TRUE,      \* now and then other names and numbers than these
          wexps  |-> <<5, 6, -4, -5, 7, 8>>,
          rexps  |-> <<<<1, 2>>, <<1, 2>>, <<-1, 2>>, <<3, 2>>, <<1, 3>>, <<2, 3>>, <<-3, 2>>, <<1, 4>>, <<5, 3>>>>,
          fns    |-> TrigFns ]

WideNames == <<"a", "t", "theta", "alpha", "xx", "x_1", "x1", "ab", "w", "X", "Y", "xy", "sinx", "T", "u">>
WideInts == <<6, 7, 9, 10, 12, 16, 25, 64, 100, 1024, 65537, 1000003, -4, -6, -7, -10, -27, -100, -4096>>
WideRats == <<<<11, 7>>, <<-13, 10>>, <<22, 9>>, <<100, 3>>, <<1, 10>>, <<-1, 100>>, <<1000001, 1000>>, <<-7, 12>>, <<9, 16>>, <<27, 8>>>>
GLeaf(g, pf) ==
    LET k0 == Pick(g, pf.leaves)  wd == Coin(k0[2], 12)  k == <<k0[1], wd[2]>>  g1 == k[2] IN
    IF pf.wide /\ wd[1] /\ k[1] \in {"sym", "int", "frac"}
    THEN CASE k[1] = "sym" -> (LET s == Pick(g1, WideNames) IN <<Sy(s[1]), s[2]>>)
           [] k[1] = "int" -> (LET s == Pick(g1, WideInts) IN <<In(s[1]), s[2]>>)
           [] OTHER -> (LET s == Pick(g1, WideRats) IN <<Fr(s[1][1], s[1][2]), s[2]>>)
    ELSE
    CASE k[1] = "sym"  -> LET s == Pick(g1, pf.syms) IN <<Sy(s[1]), s[2]>>
      [] k[1] = "int"  -> LET s == Pick(g1, pf.ints) IN <<In(s[1]), s[2]>>
      [] k[1] = "frac" -> LET s == Pick(g1, Rationals) IN <<Fr(s[1][1], s[1][2]), s[2]>>
      [] k[1] = "flt"  -> LET s == Pick(g1, Floats) IN <<<<"flt", s[1]>>, s[2]>>
      [] k[1] \in {"pi", "e", "inf"} -> <<<<k[1]>>, g1>>

\* a plain Python number
GRaw(g, pf) ==
    LET k == Between(g, 0, 5)  g1 == k[2] IN
    IF k[1] < 3 THEN LET s == Pick(g1, pf.ints) IN <<<<"pint", s[1]>>, s[2]>>
    ELSE IF k[1] < 5 THEN LET s == Pick(g1, Rationals) IN <<<<"pfrac", s[1][1], s[1][2]>>, s[2]>>
    ELSE LET s == Pick(g1, Floats) IN <<<<"pflt", s[1]>>, s[2]>>

\* an exponent that contains a symbol (numbers to the power of computed numbers would explode)
GSymExp(g, pf) ==
    LET s == Pick(g, pf.syms)
        n == Pick(s[2], <<2, 3, -1, -2, 1>>)
        k == Between(n[2], 0, 4)
        v == Sy(s[1])
    IN <<CASE k[1] = 0 -> v
           [] k[1] = 1 -> <<"mul", In(n[1]), v>>
           [] k[1] = 2 -> <<"add", v, In(n[1])>>
           [] k[1] = 3 -> <<"div", v, In(2)>>
           [] k[1] = 4 -> <<"neg", v>>, k[2]>>

RECURSIVE GExpr(_, _, _)
RECURSIVE GList(_, _, _, _)
\* n expressions
GList(g, n, d, pf) ==
    IF n = 0 THEN <<<<>>, g>>
    ELSE LET h == GExpr(g, d, pf)
             r == GList(h[2], n - 1, d, pf)
         IN <<<<h[1]>> \o r[1], r[2]>>

\* an expression of depth at most d
GExpr(g, d, pf) ==
    IF d <= 0 THEN GLeaf(g, pf)
    ELSE LET k == Pick(g, pf.ops)  op == k[1]
             \* mostly one child is shallow, so that trees are long rather than exponentially large
             sh == Between(k[2], 0, 3)
             g1 == sh[2]
             da == IF sh[1] = 1 THEN d - 2 ELSE d - 1
             db == IF sh[1] = 2 THEN 0 ELSE IF sh[1] = 3 THEN d - 2 ELSE d - 1
         IN
         CASE op = "leaf" -> GLeaf(g1, pf)
           [] op \in {"add", "sub", "mul", "div"} ->
                LET a == GExpr(g1, da, pf)  b == GExpr(a[2], db, pf) IN <<<<op, a[1], b[1]>>, b[2]>>
           [] op \in {"neg", "sqrt", "log", "abs"} ->
                LET a == GExpr(g1, da, pf) IN <<<<op, a[1]>>, a[2]>>
           [] op = "logb" ->
                LET a == GExpr(g1, da, pf)  b == Pick(a[2], <<In(2), In(10), Sy("b"), Fr(1, 2)>>) IN <<<<"log", a[1], b[1]>>, b[2]>>
           [] op = "ipow" ->
                LET a == GExpr(g1, da, pf)  w == Coin(a[2], 12)  b == Pick(w[2], IF w[1] /\ pf.wexps # <<>> THEN pf.wexps ELSE pf.exps) IN <<<<"pow", a[1], In(b[1])>>, b[2]>>
           [] op = "rpow" ->
                LET a == GExpr(g1, da, pf)  b == Pick(a[2], pf.rexps) IN <<<<"pow", a[1], Fr(b[1][1], b[1][2])>>, b[2]>>
           [] op = "xpow" ->
                LET a == GExpr(g1, da, pf)  b == GSymExp(a[2], pf) IN <<<<"pow", a[1], b[1]>>, b[2]>>
           [] op = "epow" ->
                LET a == GExpr(g1, da, pf) IN <<<<"pow", <<"e">>, a[1]>>, a[2]>>
           [] op = "npow" ->
                LET a == GSymExp(g1, pf)  b == Pick(a[2], <<2, 3, 5, 10>>) IN <<<<"pow", In(b[1]), a[1]>>, b[2]>>
           [] op \in {"sum", "prod"} ->
                LET n == Between(g1, 2, 4)  l == GList(n[2], n[1], d - 2, pf) IN <<<<op>> \o l[1], l[2]>>
           [] op = "fn" ->
                LET f == Pick(g1, pf.fns)  a == GExpr(f[2], da, pf) IN <<<<"fn", f[1], a[1]>>, a[2]>>
           [] op = "raw" ->
                LET o == Pick(g1, <<"add", "sub", "mul", "div", "pow">>)
                    r == GRaw(o[2], pf)
                    c == Coin(r[2], 50)
                    a == IF c[1] /\ o[1] = "pow" THEN GSymExp(c[2], pf) ELSE GExpr(c[2], da, pf)
                    \* Python itself turns Fraction ** Expr into float ** Expr
                    l == IF o[1] = "pow" /\ r[1][1] = "pfrac" THEN <<"pint", r[1][3]>> ELSE r[1]
                IN <<IF c[1] THEN <<o[1], l, a[1]>> ELSE <<o[1], a[1], r[1]>>, a[2]>>
           [] op = "share" -> \* both operands the same subprogram
                LET o == Pick(g1, <<"add", "sub", "mul", "div">>)  a == GExpr(o[2], d - 1, pf) IN <<<<o[1], a[1], a[1]>>, a[2]>>
=============================================================================
