------------------------------ MODULE JobsSess ------------------------------
(* C12, C13: histories of calls on shared expressions *)
EXTENDS JobsInt

OpNames1 == <<"neg", "sqrt", "log", "abs", "epow", "expand", "simplify", "swap", "evalf", "factor", "trig_simplify", "pythag", "recip", "expand_logs", "onefrac", "pts", "replace_class",
              "latex", "repr", "nesting", "symbols", "has", "expandable", "numden", "is_subtraction", "poly", "count_symbols", "transforms", "table", "remove_const", "children",
              "subs_plain", "evalf_plain", "sum_plain", "prod_plain", "arrays", "class_lists">>
OpNamesV == <<"diff", "integrate", "integrate_bf", "defint", "nesting_var", "contains">>
OpNames2 == <<"add", "sub", "mul", "div", "eq", "count", "eq_with_var">>
OpNames3 == <<"sum", "prod", "replace", "subs_dict", "sum_list", "prod_list">>
MatchOps == <<"match", "match_f", "match_s">>
Patterns == <<"sin2", "sum", "log", "pow", "tan", "add", "exp", "sq", "any">>
Op(name, is, a) == <<"op", name, is, a>>
New(p) == <<"new", p>>
NBatch == 6
NSlow == 400
Sess(steps) == [m |-> "sess", steps |-> steps]

\* operations numbered 1..NOps on the objects i, j, k
NOps == Len(OpNames1) + Len(OpNamesV) + Len(OpNames2) + Len(OpNames3) + 3 * Len(Patterns) + Len(AllFns) + 4
OpAt(o, i, j, k) ==
    LET n1 == Len(OpNames1)  nv == n1 + Len(OpNamesV)  n2 == nv + Len(OpNames2)  n3 == n2 + Len(OpNames3)  nm == n3 + 3 * Len(Patterns)  nf == nm + Len(AllFns) IN
    CASE o <= n1 -> Op(OpNames1[o], <<i>>, 0)
      [] o > n1 /\ o <= nv -> Op(OpNamesV[o - n1], <<i>>, "x")
      [] o > nv /\ o <= n2 -> Op(OpNames2[o - nv], <<i, j>>, 0)
      [] o > n2 /\ o <= n3 -> Op(OpNames3[o - n2], <<i, j, k>>, 0)
      [] o > n3 /\ o <= nm -> LET m == o - n3 - 1 IN Op(MatchOps[(m % 3) + 1], <<i>>, Patterns[(m \div 3) + 1])
      [] o > nm /\ o <= nf -> Op("fn", <<i>>, AllFns[o - nm])
      [] o = nf + 1 -> Op("subs", <<i, j>>, "x")
      [] o = nf + 2 -> Op("pow", <<i>>, 2)
      [] o = nf + 3 -> Op("pow", <<i>>, -1)
      [] o = nf + 4 -> Op("scale", <<i>>, 3)

\* s = a combination of two expressions, t one that shares it; two operations and the first one again
Slow == {"integrate", "integrate_bf", "defint", "transforms"}
\* all other operations, those with a variable for x and for y
Cheap(i, j, k) ==
    LET all == [o \in 1..NOps |-> OpAt(o, i, j, k)]
        fast == SelectSeq(all, LAMBDA op : op[2] \notin Slow)
        withv == SelectSeq(fast, LAMBDA op : op[2] \in {OpNamesV[m] : m \in DOMAIN OpNamesV})
    IN fast \o [m \in DOMAIN withv |-> Op(withv[m][2], withv[m][3], "y")] \o <<Op("subs", <<i, j>>, "y"), Op("subs", <<i, k>>, "x")>>
SlowOps(i) == <<Op("integrate", <<i>>, "x"), Op("integrate", <<i>>, "y"), Op("integrate_bf", <<i>>, "x"), Op("defint", <<i>>, "x"), Op("defint", <<i>>, "y"), Op("transforms", <<i>>, 0)>>
Rotate(s, n) == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)
\* every operation on one expression, and all of them again in another order
BatchSess(r, q) ==
    LET a == Reps[r]
        b == Reps[((r * 7 + q * 5) % Len(Reps)) + 1]
        f == Cheap(3, 1, 2)
        g == Rotate(f, (r * 17 + q * 29) % Len(f))
        h == Cheap(3, 3, 1)
    IN Sess(<<New(a), New(b), Op(RepOps[((q + r) % 4) + 1], <<1, 2>>, 0)>> \o (IF q % 2 = 1 THEN g \o Reverse(g) ELSE Reverse(g) \o h \o g))
SlowSess(i) ==
    LET s == SlowOps(2)  v == Rotate(s, i % Len(s)) IN
    Sess(<<New(IntAt(i % NInt)), New(IntAt((i * 7 + 3) % NInt)), v[1], Op("nesting", <<2>>, 0), Op("expand", <<2>>, 0), v[2], Op("diff", <<2>>, "y"), Op("diff", <<2>>, "x"), v[3], Op("simplify", <<2>>, 0), v[4], v[1], Op("integrate", <<1>>, "x"), v[5], v[6], v[2], v[3]>>)
\* the first family is always executed
SessFam == <<<<Len(Reps), NBatch>>, <<NSlow>>, <<NOps, Len(Reps)>>, <<NOps, NOps>>>>
SessE(i) ==
    LET f == FamAt(SessFam, i)  r == f[2] IN
    IF f[1] = 1 THEN BatchSess(r[1], r[2])
    ELSE IF f[1] = 2 THEN SlowSess(r[1])
    ELSE IF f[1] = 3
    THEN LET a == Reps[r[2]]  b == Reps[((r[2] * 5 + r[1] * 11) % Len(Reps)) + 1]  c == RepOps[((r[1] + r[2]) % Len(RepOps)) + 1]
             o2 == ((r[1] * 7 + r[2] * 13) % NOps) + 1
         IN Sess(<<New(a), New(b), Op(c, <<1, 2>>, 0), Op("add", <<3, 2>>, 0), OpAt(r[1], 3, 4, 1), OpAt(o2, 4, 3, 2), OpAt(r[1], 4, 1, 3), <<"again", 5>>, OpAt(o2, 1, 4, 3), <<"again", 6>>>>)
    ELSE LET q == (r[1] * 31 + r[2] * 17) IN
         Sess(<<New(Reps[(q % Len(Reps)) + 1]), New(IntAt(q % NInt)), Op(RepOps[(q % 3) + 1], <<1, 2>>, 0), OpAt(r[1], 3, 1, 2), OpAt(r[2], 3, 2, 1), <<"again", 4>>, OpAt(r[2], 1, 3, 2), OpAt(r[1], 2, 3, 1), <<"again", 5>>>>)

RECURSIVE GSteps(_, _)
GSteps(g, n) ==
    IF n = 0 THEN <<<<>>, g>>
    ELSE LET k == Between(g, 0, 11)
             o == Between(k[2], 1, NOps)
             i == Between(o[2], 1, 12)
             j == Between(i[2], 1, 12)
             l == Between(j[2], 1, 12)
             p == GInt(l[2])
             a == Between(l[2], 1, 20)
             v == Pick(a[2], <<"x", "x", "y">>)
             op == OpAt(o[1], i[1], j[1], l[1])
             st == CASE k[1] = 0 -> New(p[1]) [] k[1] \in {1, 2} -> <<"again", a[1]>>
                     [] OTHER -> IF op[2] \in {OpNamesV[m] : m \in DOMAIN OpNamesV} THEN Op(op[2], op[3], v[1]) ELSE op
             r == GSteps(IF k[1] = 0 THEN p[2] ELSE v[2], n - 1)
         IN <<<<st>> \o r[1], r[2]>>
SessR(g) ==
    LET p == GInt(g)  pf == Pick(p[2], C04Profiles)  q == GExpr(pf[2], 2, pf[1])  n == Between(q[2], 4, 12)  s == GSteps(n[2], n[1])
    IN Sess(<<New(p[1]), New(q[1])>> \o s[1])
=============================================================================
