----------------------------- MODULE JobsForms -----------------------------
(* C25: the same call written in its different forms. *)
EXTENDS JobsInt

Form(f) == [m |-> "form", f |-> f]
PIn(n) == <<"pint", n>>
PFr(n, d) == <<"pfrac", n, d>>
PFl(s) == <<"pflt", s>>
PyNums == <<PIn(0), PIn(1), PIn(-1), PIn(2), PIn(-3), PIn(10), PFr(1, 2), PFr(-2, 3), PFr(6, 3), PFl("0.5"), PFl("-1.25"), PFl("3.0"), PFl("1.0"), PFl("0.0")>>
FormOps == <<"add", "sub", "mul", "div", "pow", "eq">>
NumFns == AllFns \o <<"log", "sqrt", "abs", "log2", "exp">>
Unary == <<"latex", "neg", "abs", "sqrt", "log1", "diff0", "diff1", "int1", "pos2">>
Bounds25 == <<<<PIn(0), PIn(1)>>, <<PIn(1), PFr(5, 2)>>, <<PFl("0.5"), PIn(2)>>, <<PIn(2), PIn(2)>>, <<PIn(3), PIn(1)>>, <<PFr(-1, 2), PFr(1, 3)>>, <<PIn(0), <<"div", <<"pi">>, In(6)>>>>, <<Y, PIn(2)>>>>
Ints25 == <<X, <<"pow", X, In(2)>>, <<"fn", "sin", X>>, <<"mul", X, Y>>, In(3), <<"div", In(1), <<"add", X, In(3)>>>>, <<"pow", Sy("t"), In(3)>>, <<"mul", <<"pow", <<"e">>, Y>>, Y>>, <<"sub", X, X>>, <<"fn", "cos", <<"mul", In(2), Sy("theta")>>>>,
            <<"mul", X, <<"log", X>>>>, <<"fn", "sin", <<"add", X, Y>>>>, <<"div", <<"mul", X, Y>>, Y>>, <<"add", <<"pow", Sy("a_1"), In(2)>>, Sy("a_1")>>, <<"sqrt", X>>, <<"pow", X, X>>>>
NameLists == <<<<"x">>, <<"x", "y">>, <<"alpha", "x_1", "y">>, <<"a", "b", "c", "d">>, <<"x", "x">>, <<"theta">>, <<"C1", "C2">>>>
Pats25 == <<<<"mul", <<"any", "a">>, X>>, <<"pow", <<"any", "a">>, In(2)>>, <<"add", <<"any", "a">>, <<"any", "b">>>>, <<"fn", "sin", <<"any", "a">>>>, <<"pow", X, <<"any", "n">>>>, <<"any", "a">>, <<"log", <<"any", "a">>>>, <<"mul", <<"any", "a">>, <<"pow", <<"e">>, <<"any", "b">>>>>>>>

FormFam == <<
   <<Len(NumFns), Len(PyNums)>>,    \* 1 functions of plain numbers
   <<Len(NameLists)>>,    \* 2 symbols
   <<2, Len(Ints25)>>,    \* 3 integrate and diff without a variable
   <<2, Len(PyNums)>>,    \* 4 integrate and diff of plain numbers
   <<3, Len(Ints25), Len(Bounds25)>>,    \* 5 integrate with bounds
   <<2, Len(Pats25), Len(Pats25)>>,    \* 6 two patterns
   <<2, Len(PyNums), Len(PyNums), 8>>,    \* 7 lists
   <<2, Len(PyNums), Len(Reps)>>,    \* 8 subs, evalf
   <<Len(Pats25), Len(Reps), 4>>,    \* 9 eq with its arguments swapped
   <<2, Len(PyNums), Len(Reps)>>,    \* 10 log with a plain base, of a plain number
   <<Len(FormOps), 2, Len(PyNums), Len(Reps)>>,    \* 11 operators with plain numbers
   <<Len(Unary), NReps>>>>    \* 12 unary forms
NFormAlways == FamSize(SubSeq(FormFam, 1, 8))
FormE(i) ==
    LET f == FamAt(FormFam, i)  r == f[2] IN
    CASE f[1] = 11 -> [op |-> FormOps[r[1]], side |-> <<"L", "R">>[r[2]], n |-> PyNums[r[3]], p |-> Reps[r[4]]] @@ Form("op")
      [] f[1] = 1 -> [fn |-> NumFns[r[1]], n |-> PyNums[r[2]]] @@ Form("fn")
      [] f[1] = 10 -> [side |-> <<"L", "R">>[r[1]], n |-> PyNums[r[2]], p |-> Reps[r[3]]] @@ Form("logb")
      [] f[1] = 7 -> [op |-> <<"sum", "prod">>[r[1]], ps |-> <<PyNums[r[2]], Reps[6 + 5 * r[4]], PyNums[r[3]]>>] @@ Form("list")
      [] f[1] = 8 -> [op |-> <<"subs", "evalf">>[r[1]], p |-> Reps[r[3]], a |-> <<<<"x", PyNums[r[2]]>>, <<"y", PIn(2)>>>>] @@ Form("subst")
      [] f[1] = 5 -> [form |-> <<"short", "long", "cast">>[r[1]], p |-> Ints25[r[2]], a |-> Bounds25[r[3]][1], b |-> Bounds25[r[3]][2]] @@ Form("defint")
      [] f[1] = 12 -> [op |-> Unary[r[1]], p |-> RepAt(r[2] - 1)] @@ Form("unary")
      [] f[1] = 2 -> [names |-> NameLists[r[1]]] @@ Form("symbols")
      [] f[1] = 9 -> [p |-> Reps[r[2]], q |-> Pats25[r[1]], utf |-> (r[3] \in {2, 4}), uts |-> (r[3] \in {3, 4})] @@ Form("eqswap")
      [] f[1] = 6 -> [p |-> Pats25[r[2]], q |-> Pats25[r[3]], utf |-> (r[1] = 1), uts |-> FALSE] @@ Form("eqswap")
      [] f[1] = 3 -> [op |-> <<"int1", "diff0">>[r[1]], p |-> Ints25[r[2]]] @@ Form("unary")
      [] f[1] = 4 -> [op |-> <<"int", "diff">>[r[1]], n |-> PyNums[r[2]]] @@ Form("ofnum")
FormR(g) ==
    LET k == Between(g, 0, 9)
        pf == Pick(k[2], MixProfiles)  d == Between(pf[2], 1, 4)  e == GExpr(d[2], d[1], pf[1])
        n == GRaw(e[2], Base)  n2 == GRaw(n[2], Base)  c == Coin(n2[2], 50)
        o == Pick(c[2], FormOps)  s == GSubs(o[2])  u == Pick(s[2], SubSeq(Unary, 1, 7))  q == Pick(u[2], Pats25)
        one == GExpr(q[2], 2, [Base EXCEPT !.syms = <<"x">>, !.wide = FALSE])[1]     \* in one symbol only
    IN CASE k[1] < 3 -> [op |-> o[1], side |-> IF c[1] THEN "L" ELSE "R", n |-> n[1], p |-> e[1]] @@ Form("op")
         [] k[1] = 3 -> [op |-> IF c[1] THEN "sum" ELSE "prod", ps |-> <<n[1], e[1], n2[1], X>>] @@ Form("list")
         [] k[1] = 4 -> [op |-> IF c[1] THEN "subs" ELSE "evalf", p |-> e[1], a |-> <<<<"x", n[1]>>, <<"y", n2[1]>>>>] @@ Form("subst")
         [] k[1] \in {5, 6} -> [op |-> u[1], p |-> e[1]] @@ Form("unary")
         [] k[1] = 7 -> [p |-> e[1], q |-> q[1], utf |-> c[1], uts |-> ~c[1]] @@ Form("eqswap")
         [] k[1] = 8 -> [form |-> IF c[1] THEN "short" ELSE "long", p |-> one, a |-> n[1], b |-> n2[1]] @@ Form("defint")
         [] k[1] = 9 -> [op |-> IF c[1] THEN "int1" ELSE "diff0", p |-> IF o[1] = "add" THEN e[1] ELSE one] @@ Form("unary")
=============================================================================
