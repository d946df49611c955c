----------------------------- MODULE JobsStruct -----------------------------
(* C02 canonical forms, C14 equality and order, C15 matching, C16 queries, C17 polynomials, C18 rationals, C21 multinomials *)
EXTENDS JobsCalc, SequencesExt

----------------------------------------------------------------------------
\* C02: all orders and groupings of the same operands
\* left-to-right and right-to-left grouping with binary operators
Bin(op) == IF op = "sum" THEN "add" ELSE "mul"
LeftG(op, s) == FoldLeft(LAMBDA acc, p : <<Bin(op), acc, p>>, Head(s), Tail(s))
RECURSIVE RightG(_, _)
RightG(op, s) == IF Len(s) = 1 THEN s[1] ELSE <<Bin(op), Head(s), RightG(op, Tail(s))>>
PairG(op, s) == IF Len(s) < 4 THEN RightG(op, s) ELSE <<Bin(op), <<op>> \o SubSeq(s, 1, 2), <<op>> \o SubSeq(s, 3, Len(s))>>
\* subtractions: a - (-b - c), -(-a - b - c), -((-a - b) - c)
Negs(s) == [i \in DOMAIN s |-> <<"neg", s[i]>>]
MinusG(s) == <<"sub", Head(s), <<"sum">> \o Negs(Tail(s))>>
NegSum(s) == <<"neg", <<"sum">> \o Negs(s)>>
NegSub(s) == <<"neg", <<"sub", <<"sum">> \o Negs(Front(s)), Last(s)>>>>
Perms3 == <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>>>
Variants3(op, s) ==
    [i \in 1..12 |-> LET q == Perms3[((i - 1) % 6) + 1]  r == <<s[q[1]], s[q[2]], s[q[3]]>>
                     IN IF i <= 6 THEN <<op>> \o r ELSE IF i % 2 = 0 THEN LeftG(op, r) ELSE RightG(op, r)]
    \o (IF op = "sum" THEN <<MinusG(s), NegSum(s), NegSub(s), MinusG(Reverse(s)), NegSum(Reverse(s))>> ELSE <<>>)
RECURSIVE VariantsR(_, _, _, _)
VariantsR(g, op, s, n) ==
    IF n = 0 THEN <<<<>>, g>>
    ELSE LET q == Shuffle(g, s)
             k == Between(q[2], 0, IF op = "sum" THEN 6 ELSE 3)
             p == CASE k[1] = 4 -> MinusG(q[1]) [] k[1] = 5 -> NegSum(q[1]) [] k[1] = 6 -> NegSub(q[1]) [] k[1] = 0 -> <<op>> \o q[1] [] k[1] = 1 -> LeftG(op, q[1]) [] k[1] = 2 -> RightG(op, q[1]) [] k[1] = 3 -> PairG(op, q[1])
             r == VariantsR(k[2], op, s, n - 1)
         IN <<<<p>> \o r[1], r[2]>>
C02Mono == <<In(0), In(1), In(-1), In(2), Fr(1, 2), X, <<"neg", X>>, <<"mul", In(2), X>>, <<"div", X, In(2)>>, Y, <<"mul", X, Y>>, <<"pow", X, In(2)>>, <<"div", In(1), X>>, <<"sqrt", X>>,
             <<"mul", <<"pow", X, In(2)>>, Y>>, <<"fn", "sin", X>>, <<"pow", <<"fn", "sin", X>>, In(2)>>, <<"mul", In(-3), <<"fn", "sin", X>>>>, <<"log", Y>>, <<"pow", <<"mul", X, Y>>, In(-1)>>,
             <<"pi">>, <<"mul", In(2), <<"pi">>>>, <<"pow", X, Fr(-1, 2)>>, <<"mul", Fr(-1, 2), <<"mul", X, Y>>>>, <<"e">>, <<"pow", Y, In(-2)>>, <<"neg", <<"pow", X, In(2)>>>>, <<"mul", <<"mul", In(3), X>>, <<"pow", Y, In(2)>>>>>>
C02Extra == <<<<"add", X, In(1)>>, <<"add", X, Y>>, <<"pow", <<"add", X, In(1)>>, In(-1)>>, <<"pow", <<"add", X, Y>>, In(2)>>, <<"sub", X, In(1)>>, <<"pow", <<"e">>, X>>, <<"pow", In(2), X>>, <<"sqrt", In(2)>>, <<"abs", X>>, <<"fn", "cos", <<"add", X, Y>>>>, <<"flt", "0.5">>, Sy("z"), <<"pow", X, Y>>, <<"log", X, In(2)>>>>
C02All == C02Mono \o C02Extra
NMono == Len(C02Mono)
\* unordered triples, by index: a <= b <= c is obtained from any triple by sorting (duplicates are harmless)
C02Fam == <<<<2, NMono, NMono, 6>>, <<2, NMono, NMono, NMono>>>>
C02E(i) ==
    LET f == FamAt(C02Fam, i)  r == f[2]
        op == <<"sum", "prod">>[r[1]]
    IN IF f[1] = 1 THEN \* with a third operand of another kind
            LET s == <<C02Mono[r[2]], C02All[NMono + ((r[2] + 5 * r[3] + r[4]) % Len(C02Extra)) + 1], C02Mono[r[3]]>> IN
            [m |-> "canon", op |-> op, args |-> s, ps |-> Variants3(op, s)]
       ELSE IF r[2] > r[3] \/ r[3] > r[4] THEN [m |-> "none"]
       ELSE LET s == <<C02Mono[r[2]], C02Mono[r[3]], C02Mono[r[4]]>> IN [m |-> "canon", op |-> op, args |-> s, ps |-> Variants3(op, s)]
\* a coefficient times powers of symbols and atoms
GMono(g) ==
    LET c == Pick(g, <<In(1), In(1), In(-1), In(2), In(-3), Fr(1, 2), Fr(-2, 3), In(0), In(5)>>)
        a == Pick(c[2], <<X, X, Y, Z, <<"fn", "sin", X>>, <<"fn", "cos", Y>>, <<"log", X>>, <<"pi">>>>)
        n == Pick(a[2], <<In(1), In(1), In(2), In(-1), In(3), Fr(1, 2), In(-2), Fr(3, 2)>>)
        b == Pick(n[2], <<In(1), In(1), X, Y, Z, <<"pow", Y, In(2)>>, <<"fn", "sin", X>>>>)
    IN <<<<"prod", c[1], <<"pow", a[1], n[1]>>, b[1]>>, b[2]>>
RECURSIVE GMonos(_, _)
GMonos(g, n) == IF n = 0 THEN <<<<>>, g>> ELSE LET h == GMono(g)  x == Pick(h[2], C02All)  k == Between(x[2], 0, 3)  r == GMonos(k[2], n - 1)
                                             IN <<<<IF k[1] = 0 THEN x[1] ELSE h[1]>> \o r[1], r[2]>>
C02R(g) ==
    LET lg == Coin(g, 8)                             \* now and then many operands
        n == IF lg[1] THEN Between(lg[2], 8, 20) ELSE Between(lg[2], 2, 6)
        l == GMonos(n[2], n[1])
        o == Pick(l[2], <<"sum", "sum", "prod">>)
        v == VariantsR(o[2], o[1], l[1], IF lg[1] THEN 3 ELSE 6)
    IN [m |-> "canon", op |-> o[1], args |-> l[1], ps |-> v[1]]

----------------------------------------------------------------------------
\* C14: comparisons of pairs
C14Num == <<In(0), In(1), In(-1), In(2), Fr(1, 2), Fr(-1, 2), Fr(1, 3), In(3), <<"pi">>, <<"e">>, <<"inf">>, <<"neg", <<"inf">>>>, <<"flt", "0.5">>, <<"flt", "2.0">>, <<"flt", "-1.0">>, <<"flt", "0.3333333333333333">>, <<"flt", "3.141592653589793">>,
            <<"flt", "2.5">>, In(1000000007), Fr(22, 7), <<"flt", "1e300">>, <<"pint", 2>>, <<"pfrac", 1, 2>>, <<"pflt", "0.5">>, <<"pint", 0>>, <<"pint", -1>>, <<"flt", "0.0">>, <<"flt", "1e-300">>>>
CmpOps == <<"eq", "lt", "le", "gt", "ge">>
C14Expr == Reps \o <<<<"add", Y, X>>, <<"add", X, In(2)>>, <<"mul", In(2), X>>, <<"pow", X, <<"flt", "3.0">>>>, <<"mul", <<"flt", "3.0">>, X>>, <<"fn", "sin", Y>>, Sy("xx"), <<"abs", <<"neg", X>>>>, <<"log", X, In(3)>>, <<"sub", Y, X>>,
                     <<"pow", X, <<"add", X, Y>>>>, <<"mul", X, Y>>, <<"pow", In(3), X>>, <<"inf">>, In(0), In(1), <<"pow", <<"pi">>, X>>, <<"sum", X, Y, Z>>, <<"sum", X, Y, In(1)>>, <<"prod", X, Y, Z>>>>
\* symbols are equal when their names are
C14Names == <<"x", "X", "xx", "x1", "x_1", "x_{1}", "y", "Y", "xy", "t", "T", "theta", "Theta", "alpha", "a", "ab", "A", "pi", "e", "sinx", "u", "u_1", "p", "q", "x2", "x_2">>
NameIn(k, n) == CASE k = 1 -> Sy(n) [] k = 2 -> <<"fn", "sin", Sy(n)>> [] k = 3 -> <<"add", Sy(n), In(1)>> [] k = 4 -> <<"prod", In(2), Sy("m"), Sy(n)>> [] k = 5 -> <<"pow", Sy("m"), Sy(n)>> [] k = 6 -> <<"log", Sy(n), Sy("m")>>
C14Fam == <<<<5, Len(C14Num), Len(C14Num)>>, <<Len(C14Expr), Len(C14Expr)>>, <<Len(C14Names), Len(C14Names), 6>>>>
C14E(i) ==
    LET f == FamAt(C14Fam, i)  r == f[2] IN
    IF f[1] = 1 THEN [m |-> "cmp", op |-> CmpOps[r[1]], a |-> C14Num[r[2]], b |-> C14Num[r[3]]]
    ELSE IF f[1] = 3 THEN [m |-> "cmp", op |-> "eq", a |-> NameIn(r[3], C14Names[r[1]]), b |-> NameIn(r[3], C14Names[r[2]])]
    ELSE [m |-> "cmp", op |-> "eq", a |-> C14Expr[r[1]], b |-> C14Expr[r[2]]]
\* an expression and the same one with one leaf or operation changed
RECURSIVE Mutate(_, _)
Mutate(g, p) ==
    IF p[1] = "sym" THEN LET s == Pick(g, <<"x", "y", "z", "w">>) IN <<Sy(s[1]), s[2]>>
    ELSE IF p[1] \in {"int", "frac", "flt", "pi", "e", "pint", "pfrac", "pflt", "inf"} THEN LET s == Pick(g, <<In(1), In(2), In(-2), Fr(1, 2), In(3)>>) IN s
    ELSE LET first == IF p[1] = "fn" THEN 3 ELSE 2
             k == Between(g, first, Len(p))
             c == Coin(k[2], 25)
         IN IF p[1] = "fn" /\ c[1] THEN LET f == Pick(c[2], AllFns) IN <<[p EXCEPT ![2] = f[1]], f[2]>>
            ELSE IF p[1] \in {"add", "sub", "mul"} /\ c[1] THEN LET o == Pick(c[2], <<"add", "sub", "mul">>) IN <<[p EXCEPT ![1] = o[1]], o[2]>>
            ELSE LET m == Mutate(c[2], p[k[1]]) IN <<[p EXCEPT ![k[1]] = m[1]], m[2]>>
C14R(g) ==
    LET a == GMix(g, 1, 4)
        k == Between(a[2], 0, 2)
        b == IF k[1] = 0 THEN GMix(k[2], 0, 1) ELSE Mutate(k[2], a[1])
        c == IF k[1] = 2 THEN Mutate(b[2], b[1]) ELSE b
    IN [m |-> "cmp", op |-> "eq", a |-> a[1], b |-> c[1]]

----------------------------------------------------------------------------
\* C15: pattern, expression, options; must: success is required
An(k) == <<"any", k>>
AA == An("a")
\* patterns with one wildcard, of the kind the library itself uses
C15Pats == <<<<"add", In(1), Sq("tan", AA)>>, <<"sub", In(1), Sq("sin", AA)>>, <<"sub", In(1), Sq("cos", AA)>>, <<"sub", Sq("sec", AA), In(1)>>, <<"add", In(1), Sq("cot", AA)>>, <<"sub", Sq("csc", AA), In(1)>>,
             <<"add", Sq("sin", AA), Sq("cos", AA)>> >>
C15Prods == <<<<"mul", <<"fn", "sin", AA>>, <<"fn", "sec", AA>>>>, <<"mul", <<"fn", "cos", AA>>, <<"fn", "csc", AA>>>>, <<"fn", "tan", AA>>, Sq("sin", AA), <<"pow", <<"fn", "sec", AA>>, In(3)>>, <<"mul", In(3), <<"fn", "tan", AA>>>>,
              <<"pow", <<"e">>, AA>>, <<"log", AA>>, <<"abs", AA>>, <<"pow", AA, In(2)>>, <<"pow", AA, Fr(1, 2)>>, AA, <<"add", X, AA>>, <<"mul", X, <<"fn", "sin", AA>>>>, <<"pow", In(2), AA>>, <<"sqrt", <<"sub", In(1), <<"pow", AA, In(2)>>>>>> >>
C15Inner == <<X, <<"mul", In(2), X>>, <<"add", <<"mul", In(2), X>>, Y>>, <<"pow", X, In(2)>>, <<"mul", X, Y>>, <<"neg", X>>, <<"div", X, In(2)>>, In(2), <<"fn", "sin", X>>, <<"sub", X, Y>>>>
C15Facs == <<In(1), In(3), In(-1), X, <<"mul", In(2), Y>>, Fr(1, 2), <<"pow", X, In(2)>>, <<"div", In(1), Y>>>>
C15Rests == <<In(0), Y, <<"add", X, Y>>, <<"fn", "cos", Z>>, <<"mul", In(-1), <<"pow", X, In(3)>>>>, <<"mul", Z, <<"fn", "sin", X>>>>>>
RECURSIVE Fill(_, _)     \* the pattern with a program for the wildcard
Fill(p, v) ==
    CASE p[1] = "any" -> v
      [] p[1] \in {"int", "frac", "sym", "flt", "pi", "e"} -> p
      [] p[1] = "fn" -> <<"fn", p[2], Fill(p[3], v)>>
      [] OTHER -> <<p[1]>> \o [i \in 1..(Len(p) - 1) |-> Fill(p[i + 1], v)]
Match(p, q, utf, uts, must) == [m |-> "match", p |-> p, q |-> q, utf |-> utf, uts |-> uts, must |-> must]
\* several placeholders: the pattern with wildcards, the expression with something in each place
C15Multi(k, a, b, c) ==
    CASE k = 1 -> <<"sum", <<"fn", "sin", a>>, <<"fn", "cos", b>>, <<"fn", "tan", c>>>>
      [] k = 2 -> <<"prod", <<"fn", "sin", a>>, <<"fn", "cos", b>>, <<"fn", "atan", c>>>>
      [] k = 3 -> <<"sum", <<"pow", <<"fn", "sin", a>>, In(2)>>, <<"log", b>>, <<"pow", <<"e">>, c>>>>
      [] k = 4 -> <<"pow", <<"fn", "sin", a>>, <<"add", <<"log", b>>, <<"fn", "cos", c>>>>>>
      [] k = 5 -> <<"mul", <<"fn", "sin", a>>, <<"add", <<"fn", "cos", b>>, <<"fn", "sec", c>>>>>>
      [] k = 6 -> <<"fn", "atan", <<"sum", <<"fn", "sin", a>>, <<"mul", In(2), <<"log", b>>>>, <<"pow", c, In(3)>>>>>>
      [] k = 7 -> <<"sum", Sq("sin", a), Sq("cos", b), <<"mul", <<"fn", "sin", c>>, <<"fn", "tan", a>>>>>>
C15Vals == <<X, Y, <<"mul", In(2), X>>, <<"add", X, Y>>>>
C15Wild == <<<<"a", "a", "a">>, <<"a", "b", "a">>, <<"a", "a", "b">>, <<"b", "a", "a">>, <<"a", "b", "c">>>>
C15Fam == <<<<Len(C15Pats), Len(C15Inner), Len(C15Facs), Len(C15Rests)>>, <<Len(C15Prods), Len(C15Inner), 2>>, <<Len(C15Pats), Len(C15Pats), 3>>, <<Len(C15Prods), Len(C15Prods), 2>>, <<Len(C15Prods), Len(Reps)>>, <<Len(C15Pats), Len(Reps)>>, <<7, 4, 4, 4, Len(C15Wild), 3>>>>
C15E(i) ==
    LET f == FamAt(C15Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> \* factor * instance + rest
            LET ins == Fill(C15Pats[r[1]], C15Inner[r[2]])
                t == <<"add", <<"expand", <<"mul", C15Facs[r[3]], ins>>>>, C15Rests[r[4]]>>
            IN Match(t, C15Pats[r[1]], TRUE, TRUE, C15Inner[r[2]] # In(2) /\ r[3] \in (CASE r[1] \in {1, 5} -> {1, 2, 3, 6, 7, 8} [] r[1] \in {2, 3} -> {1, 3, 7, 8} [] r[1] \in {4, 6} -> {1, 7, 8} [] r[1] = 7 -> {1, 2, 3}))
      [] f[1] = 2 -> Match(Fill(C15Prods[r[1]], C15Inner[r[2]]), C15Prods[r[1]], r[3] = 2, FALSE, FALSE)
      [] f[1] = 3 -> Match(Fill(C15Pats[r[1]], X), C15Pats[r[2]], r[3] # 1, r[3] = 3, FALSE)
      [] f[1] = 4 -> Match(Fill(C15Prods[r[1]], X), C15Prods[r[2]], r[3] = 2, FALSE, FALSE)
      [] f[1] = 5 -> Match(Reps[r[2]], C15Prods[r[1]], FALSE, FALSE, FALSE)
      [] f[1] = 7 -> LET w == C15Wild[r[5]] IN
                     Match(C15Multi(r[1], C15Vals[r[2]], C15Vals[r[3]], C15Vals[r[4]]), C15Multi(r[1], An(w[1]), An(w[2]), An(w[3])), r[6] = 2, r[6] = 3 /\ r[1] \in {1, 3, 7}, FALSE)
      [] f[1] = 6 -> Match(<<"add", Reps[r[2]], <<"add", Sq("sin", X), Y>>>>, C15Pats[r[1]], TRUE, TRUE, FALSE)
\* a pattern made from a random expression by putting wildcards in place of sub-expressions
RECURSIVE MkPat(_, _)
MkPat(g, p) ==
    IF p[1] \in {"int", "frac", "flt", "pi", "e"} THEN <<p, g>>
    ELSE LET c == Coin(g, IF p[1] = "sym" THEN 60 ELSE 25) IN
         IF c[1] THEN LET k == Pick(c[2], <<"a", "a", "b">>) IN <<An(k[1]), k[2]>>
         ELSE IF p[1] = "sym" THEN <<p, c[2]>>
         ELSE IF p[1] = "fn" THEN LET u == MkPat(c[2], p[3]) IN <<<<"fn", p[2], u[1]>>, u[2]>>
         ELSE LET u == MkPat(c[2], p[2]) IN
              IF Len(p) = 2 THEN <<<<p[1], u[1]>>, u[2]>>
              ELSE LET v == MkPat(u[2], p[3]) IN <<<<p[1], u[1], v[1]>> \o SubSeq(p, 4, Len(p)), v[2]>>
C15Prof == [Base EXCEPT !.syms = <<"x", "y">>, !.ops = <<"add", "sub", "mul", "mul", "ipow", "fn", "fn", "epow", "log">>]
C15R(g) ==
    LET t == GExpr(g, 3, C15Prof)
        q == MkPat(t[2], t[1])
        k == Between(q[2], 0, 3)
        m == Mutate(k[2], t[1])
        u == Coin(m[2], 50)
        s == GTrigSum(u[2])
        pt == Pick(s[2], C15Pats)
    IN IF k[1] = 3 THEN Match(s[1], pt[1], TRUE, TRUE, FALSE)
       ELSE Match(IF k[1] = 0 THEN m[1] ELSE t[1], q[1], u[1], FALSE, FALSE)

----------------------------------------------------------------------------
\* C16: structural queries
C16Fns == <<"symbols", "contains", "has", "count", "nesting", "nesting_var", "count_symbols", "eq_with_var", "replace", "replace_class">>
Q(f, p, a) == [m |-> "query", f |-> f, p |-> p, a |-> a]
GQuery(g, p) ==
    LET f == Pick(g, C16Fns)
        v == Pick(f[2], <<"x", "y", "z", "w">>)
        q == Pick(v[2], Reps \o Reps \o <<X, X, X, In(2), In(-1), <<"fn", "sin", X>>>>)
        c == Pick(q[2], <<"Symbol", "Sum", "Prod", "Power", "log", "Abs", "Rat", "sin", "cos", "tan", "sec", "TrigFunction", "SingleFunc", "Num", "asin", "Float", "Pi", "TrigFunctionNotInverse">>)
        w == Pick(c[2], <<"t", "w", "y", "x">>)
        s == Mutate(w[2], p)
        same == Coin(s[2], 60)
        n == Pick(same[2], <<Sy("w"), <<"add", Sy("w"), In(1)>>, <<"fn", "sin", Sy("w")>>, In(3), X>>)
    IN <<CASE f[1] \in {"symbols", "count_symbols", "nesting"} -> Q(f[1], p, [v |-> "x"])
           [] f[1] \in {"contains", "nesting_var"} -> Q(f[1], p, [v |-> v[1]])
           [] f[1] = "has" -> Q("has", p, [v |-> c[1]])
           [] f[1] = "count" -> Q("count", p, [q |-> q[1]])
           [] f[1] = "eq_with_var" -> Q("eq_with_var", p, [v |-> v[1], w |-> w[1], q |-> IF same[1] THEN p ELSE s[1]])
           [] f[1] = "replace" -> Q("replace", p, [q |-> q[1], n |-> n[1]])
           [] f[1] = "replace_class" -> Q("replace_class", p, [v |-> "x"]), n[2]>>
C16Fam == <<<<Len(Reps), Len(Reps), 3>>, <<Len(Reps), 18>>, <<Len(Outer), Len(Reps), 6>>, <<Len(C14Names), Len(C14Names), 6>>>>
C16Cls == <<"Symbol", "Sum", "Prod", "Power", "log", "Abs", "Rat", "sin", "cos", "tan", "sec", "TrigFunction", "SingleFunc", "Num", "asin", "Float", "Pi", "TrigFunctionNotInverse">>
C16E(i) ==
    LET f == FamAt(C16Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> LET p == IF r[3] = 3 THEN <<"mul", Reps[r[1]], <<"add", Reps[r[2]], <<"fn", "sin", Reps[r[2]]>>>>>> ELSE <<"add", Reps[r[1]], Reps[r[2]]>> IN
                     (CASE r[3] = 1 -> Q("count", p, [q |-> Reps[r[2]]])
                        [] r[3] = 2 -> Q("replace", p, [q |-> Reps[r[2]], n |-> Sy("w")])
                        [] r[3] = 3 -> Q("count", p, [q |-> Reps[r[2]]]))
      [] f[1] = 2 -> Q("has", Reps[r[1]], [v |-> C16Cls[r[2]]])
      [] f[1] = 4 -> LET a == C14Names[r[1]]  b == C14Names[r[2]]  p == <<"sum", <<"mul", In(2), Sy(a)>>, <<"fn", "cos", <<"pow", Sy(a), Sy("m")>>>>, <<"pow", Sy("m"), In(2)>>>> IN
                     (CASE r[3] = 1 -> Q("contains", p, [v |-> b])
                        [] r[3] = 2 -> Q("count", p, [q |-> Sy(b)])
                        [] r[3] = 3 -> Q("replace", p, [q |-> Sy(b), n |-> <<"add", Sy("w"), In(1)>>])
                        [] r[3] = 4 -> Q("eq_with_var", p, [v |-> a, w |-> b, q |-> <<"sum", <<"mul", In(2), Sy(b)>>, <<"fn", "cos", <<"pow", Sy(b), Sy("m")>>>>, <<"pow", Sy("m"), In(2)>>>>])
                        [] r[3] = 5 -> Q("nesting_var", <<"add", p, <<"fn", "sin", <<"mul", In(2), Sy(b)>>>>>>, [v |-> b])
                        [] r[3] = 6 -> Q("symbols", <<"mul", p, Sy(b)>>, [v |-> "x"]))
      [] f[1] = 3 -> LET p == Apply1(Outer[r[1]], Reps[r[2]]) IN
                     (CASE r[3] = 1 -> Q("symbols", p, [v |-> "x"])
                        [] r[3] = 2 -> Q("nesting_var", p, [v |-> "x"])
                        [] r[3] = 3 -> Q("eq_with_var", p, [v |-> "x", w |-> "t", q |-> p])
                        [] r[3] = 4 -> Q("replace_class", p, [v |-> "x"])
                        [] r[3] = 5 -> Q("contains", p, [v |-> "y"])
                        [] r[3] = 6 -> Q("count_symbols", p, [v |-> "y"]))
C16R(g) == LET p == GMix(g, 1, 4)  q == GQuery(p[2], p[1]) IN q[1]

----------------------------------------------------------------------------
\* C17
GQ(g) == LET k == Between(g, -9, 9)  d == Pick(k[2], <<1, 1, 1, 2, 3, 7>>) IN <<IF d[1] = 1 THEN In(k[1]) ELSE Fr(k[1], d[1]), d[2]>>
RECURSIVE GQs(_, _)
GQs(g, n) == IF n = 0 THEN <<<<>>, g>> ELSE LET h == GQ(g)  z == Coin(h[2], 25)  r == GQs(z[2], n - 1) IN <<<<IF z[1] THEN In(0) ELSE h[1]>> \o r[1], r[2]>>
PolyOf(cs) == <<"sum", In(0)>> \o [i \in 1..Len(cs) |-> <<"mul", cs[i], <<"pow", X, In(i - 1)>>>>]
\* all quadratics and linear polynomials with small coefficients; things that are not polynomials
C17Small == <<In(0), In(1), In(-1), In(2), Fr(1, 2), Fr(-2, 3)>>
C17Bad == <<<<"sqrt", X>>, <<"div", In(1), X>>, <<"fn", "sin", X>>, <<"mul", X, Y>>, <<"pow", X, Y>>, <<"pow", <<"e">>, X>>, <<"abs", X>>, <<"log", X>>, <<"mul", <<"pow", X, In(2)>>, <<"fn", "cos", X>>>>, <<"pow", X, Fr(3, 2)>>, <<"mul", Y, <<"pow", X, In(2)>>>>,
            <<"pow", <<"add", X, In(1)>>, In(-1)>>, <<"div", <<"add", X, In(1)>>, <<"sub", X, In(1)>>>>, <<"pow", X, In(-2)>>, <<"sqrt", <<"add", X, In(1)>>>>>>
\* several constant terms; lists with symbols among their coefficients
C17Cons == <<Y, Sy("z"), In(2), <<"pi">>, <<"fn", "sin", Y>>, <<"mul", In(3), Y>>, <<"neg", Y>>, <<"pow", Sy("z"), In(2)>>, <<"sqrt", In(2)>>, Fr(-1, 3)>>
C17Var == <<X, <<"mul", In(3), <<"pow", X, In(2)>>>>, <<"add", <<"pow", X, In(4)>>, <<"neg", X>>>>>>
C17Ent == <<In(0), In(1), Y, Fr(1, 2), <<"neg", Y>>, <<"flt", "0.5">>, <<"flt", "0.0">>, <<"pi">>>>
C17Fam == <<<<6, 6, 6>>, <<6, 6, 5, 4>>, <<Len(C17Bad), 6, 6>>, <<7, 7, 7, 7>>, <<3, Len(C17Cons), Len(C17Cons), Len(C17Cons), 2>>, <<8, 8, 8, 2>>, <<34, 6, 4>>>>
MatEntries == <<In(0), In(1), In(-1), In(2), Fr(1, 2), X, Y>>
C17E(i) ==
    LET f == FamAt(C17Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> [m |-> "poly", f |-> "to", p |-> PolyOf(<<C17Small[r[1]], C17Small[r[2]], C17Small[r[3]]>>)]
      [] f[1] = 2 -> [m |-> "poly", f |-> "to", p |-> <<"mul", C17Small[r[1]], <<"mul", <<"pow", <<"add", X, C17Small[r[2]]>>, In(r[3] - 1)>>, <<"pow", <<"sub", <<"mul", In(2), X>>, In(3)>>, In(r[4] - 1)>>>>>>]
      [] f[1] = 3 -> [m |-> "poly", f |-> "to", p |-> <<"sum", C17Bad[r[1]], <<"mul", C17Small[r[2]], <<"pow", X, In(3)>>>>, C17Small[r[3]]>>]
      [] f[1] = 4 -> [m |-> "poly", f |-> "invert", a |-> <<MatEntries[r[1]], MatEntries[r[2]], MatEntries[r[3]], MatEntries[r[4]]>>]
      [] f[1] = 5 -> [m |-> "poly", f |-> "to", p |-> <<"sum", C17Cons[r[2]]>> \o (IF r[5] = 1 THEN <<C17Var[r[1]], C17Cons[r[3]], C17Cons[r[4]]>> ELSE <<C17Cons[r[3]], C17Cons[r[4]], C17Var[r[1]]>>)]
      [] f[1] = 7 -> \* high degrees
                     LET n == r[1] + 6  c == C17Small[r[2]]  xn == <<"pow", X, In(n)>> IN
                     (CASE r[3] = 1 -> [m |-> "poly", f |-> "to", p |-> <<"add", xn, c>>]
                        [] r[3] = 2 -> [m |-> "poly", f |-> "to", p |-> <<"sum", <<"mul", c, <<"pow", X, In(r[2] + 1)>>>>, <<"mul", In(-2), xn>>, <<"pow", X, In(n \div 2)>>>>]
                        [] r[3] = 3 -> [m |-> "poly", f |-> "from", a |-> [j \in 1..(n + 1) |-> IF j = n + 1 THEN In(3) ELSE IF j % 5 = r[2] - 1 THEN Fr(j, 7) ELSE In(0)]]
                        [] r[3] = 4 -> [m |-> "poly", f |-> "zeros", a |-> [j \in 1..(n + r[2]) |-> IF j = n THEN c ELSE IF j < n /\ j % 3 = 0 THEN In(j) ELSE In(0)]])
      [] f[1] = 6 -> [m |-> "poly", f |-> "zeros", a |-> <<C17Ent[r[1]], C17Ent[r[2]], C17Ent[r[3]]>> \o (IF r[4] = 1 THEN <<>> ELSE <<In(0)>>)]
C17R(g) ==
    LET k == Between(g, 0, 4)
        n == Between(k[2], 1, 7)
        cs == GQs(n[2], n[1])
        sh == Shuffle(cs[2], [i \in 1..n[1] |-> i])
        pe == GExpr(sh[2], 3, [Base EXCEPT !.syms = <<"x">>, !.leaves = <<"sym", "sym", "int", "frac">>, !.ops = <<"add", "sub", "mul", "mul", "neg", "ipow">>, !.exps = <<2, 3>>, !.wexps = <<>>])
        q4 == GQs(pe[2], 4)
        z == Between(q4[2], 0, 3)
    IN CASE k[1] = 0 -> [m |-> "poly", f |-> "to", p |-> <<"sum", In(0)>> \o [i \in 1..n[1] |-> PolyOf(cs[1])[sh[1][i] + 2]]]
         [] k[1] = 1 -> [m |-> "poly", f |-> "to", p |-> pe[1]]
         [] k[1] = 2 -> [m |-> "poly", f |-> "from", a |-> cs[1]]
         [] k[1] = 3 -> [m |-> "poly", f |-> "zeros", a |-> cs[1] \o SubSeq(<<In(0), In(0), In(0)>>, 1, z[1])]
         [] k[1] = 4 -> [m |-> "poly", f |-> "invert", a |-> q4[1]]

----------------------------------------------------------------------------
\* C18: numbers
Bigs == <<<<"0", "1">>, <<"1", "1">>, <<"-1", "1">>, <<"2", "1">>, <<"-2", "1">>, <<"3", "1">>, <<"1", "2">>, <<"-1", "2">>, <<"2", "3">>, <<"-7", "3">>, <<"9", "4">>, <<"8", "27">>, <<"-8", "1">>, <<"10", "1">>,
          <<"1000000007", "998244353">>, <<"-12345678901234567890", "7">>, <<"18446744073709551616", "1">>, <<"36893488147419103232", "3">>, <<"1", "340282366920938463463374607431768211456">>,
          <<"100000000000000000000000000000000000000000000000000", "1">>, <<"15241578750190521", "1">>, <<"-27000000000000000000000", "1">>, <<"999999999999999999999999", "1000000000000000000000000">>>>
Bg(q) == <<"bigq", q[1], q[2]>>
NumOps == <<"add", "sub", "mul", "div", "floordiv", "mod", "pow", "eq", "lt", "le">>
UnOps == <<"neg", "abs", "reciprocal", "sqrt", "cbrt", "root4">>
SmallExp == <<-3, -2, -1, 0, 1, 2, 3, 5, 7>>
C18Fl == <<<<"flt", "0.5">>, <<"flt", "-1.25">>, <<"flt", "2.0">>, <<"flt", "0.1">>, <<"flt", "1e20">>>>
\* plain Python numbers next to the library's
C18Py == <<<<"pflt", "0.5">>, <<"pflt", "-1.25">>, <<"pflt", "2.0">>, <<"pint", 3>>, <<"pint", -2>>, <<"pfrac", 2, 3>>, <<"pfrac", -7, 2>>, <<"pfrac", 8, 4>>>>
C18Lib == <<In(0), In(1), In(-1), In(2), Fr(1, 2), Fr(-7, 3), In(10), <<"flt", "0.25">>, <<"flt", "-2.0">>, <<"bigq", "36893488147419103232", "3">>>>
InfOps == <<"add", "sub", "mul", "div", "pow", "lt", "eq">>
Infs == <<<<"inf">>, <<"neg", <<"inf">>>>, In(0), In(1), In(-1), In(2), Fr(-1, 2), Fr(1, 2), In(-3), <<"flt", "0.5">>, <<"flt", "-2.0">>>>
\* perfect powers and others beyond the range of floats, and their roots
HugeBase == LET t == "000000000000000000000000000000000000000000000000000000000000"  z == t \o t \o t \o t \o t \o t  y == z \o z IN
            <<<<"1" \o z, "1">>, <<"1", "1" \o z>>, <<"64" \o z, "1">>, <<"729", "64" \o z>>, <<"1" \o y, "1">>, <<"4096" \o z, "531441">>, <<"1" \o z, "9" \o z \o "1">>, <<"2" \o z, "1">>, <<"3", "1" \o z>>, <<"1" \o z \o "1", "1">>>>
HugeExp == <<Fr(1, 2), Fr(-1, 2), Fr(1, 3), Fr(-1, 3), Fr(2, 3), Fr(-3, 2), Fr(1, 4), Fr(5, 6), Fr(1, 5), Fr(1, 7)>>
C18Fam == <<<<6, Len(Bigs), Len(Bigs)>>, <<Len(UnOps), Len(Bigs)>>, <<Len(Bigs), Len(SmallExp)>>, <<5, Len(C18Fl), 13>>, <<5, 13, Len(C18Fl)>>, <<Len(InfOps), Len(Infs), Len(Infs)>>, <<3, Len(Bigs), Len(Bigs)>>, <<40, 40, 6>>, <<5, 2, Len(C18Py), Len(C18Lib)>>, <<Len(HugeBase), Len(HugeExp) + 3>>>>
Num(op, a) == [m |-> "num", op |-> op, a |-> a]
C18E(i) ==
    LET f == FamAt(C18Fam, i)  r == f[2] IN
    CASE f[1] = 1 -> Num(NumOps[r[1]], <<Bg(Bigs[r[2]]), Bg(Bigs[r[3]])>>)
      [] f[1] = 2 -> Num(UnOps[r[1]], <<Bg(Bigs[r[2]])>>)
      [] f[1] = 3 -> Num("pow", <<Bg(Bigs[r[1]]), In(SmallExp[r[2]])>>)
      [] f[1] = 4 -> Num(NumOps[r[1]], <<C18Fl[r[2]], Bg(Bigs[r[3]])>>)
      [] f[1] = 5 -> Num(NumOps[r[1]], <<Bg(Bigs[r[2]]), C18Fl[r[3]]>>)
      [] f[1] = 6 -> Num(InfOps[r[1]], <<Infs[r[2]], Infs[r[3]]>>)
      [] f[1] = 7 -> Num(<<"eq", "lt", "le">>[r[1]], <<Bg(Bigs[r[2]]), Bg(Bigs[r[3]])>>)
      [] f[1] = 8 -> \* perfect powers and their roots: (n/d)^(p/q)
                     Num("pow", <<<<"pow", Fr(r[1], r[2] + (IF r[1] = r[2] THEN 1 ELSE 0)), In(<<2, 3, 4, 5, 2, 6>>[r[3]])>>, <<Fr(1, 2), Fr(1, 3), Fr(3, 4), Fr(-2, 5), Fr(-3, 2), Fr(5, 6)>>[r[3]]>>)
      [] f[1] = 9 -> Num(<<"add", "sub", "mul", "div", "pow">>[r[1]], IF r[2] = 1 /\ ~(r[1] = 5 /\ r[3] > 5) \* Python turns Fraction ** x into float ** x
                                                                           THEN <<C18Py[r[3]], C18Lib[r[4]]>> ELSE <<C18Lib[r[4]], C18Py[r[3]]>>)
      [] f[1] = 10 -> IF r[2] > Len(HugeExp) THEN Num(<<"sqrt", "cbrt", "root4">>[r[2] - Len(HugeExp)], <<Bg(HugeBase[r[1]])>>) ELSE Num("pow", <<Bg(HugeBase[r[1]]), HugeExp[r[2]]>>)
GBig(g) ==
    LET a == Pick(g, Bigs)  b == Pick(a[2], Bigs)  k == Between(b[2], 0, 3)  n == Between(k[2], -50, 50)  d == Between(n[2], 1, 30) IN
    <<CASE k[1] = 0 -> Bg(a[1]) [] k[1] = 1 -> <<"mul", Bg(a[1]), Bg(b[1])>> [] k[1] = 2 -> Fr(n[1], d[1]) [] k[1] = 3 -> <<"add", Bg(a[1]), Bg(b[1])>>, d[2]>>
C18R(g) ==
    LET o == Pick(g, NumOps \o UnOps \o <<"add", "mul", "sub", "div">>)
        a == GBig(o[2])  b == GBig(a[2])  e == Pick(b[2], SmallExp)
    IN Num(o[1], IF o[1] \in {"neg", "abs", "reciprocal", "sqrt", "cbrt", "root4"} THEN <<a[1]>> ELSE IF o[1] = "pow" THEN <<a[1], In(e[1])>> ELSE <<a[1], b[1]>>)

----------------------------------------------------------------------------
\* C21: i numbers with sum n
C21Fam == <<<<7, 9>>, <<4, 14, 14, 14>>>>
C21E(i) ==
    LET f == FamAt(C21Fam, i)  r == f[2] IN
    IF f[1] = 1 THEN [m |-> "comb", f |-> "perms", i |-> r[1], n |-> r[2] - 1]
    ELSE LET xs == SubSeq(<<r[2] - 1, r[3] - 1, r[4] - 1, 3>>, 1, r[1]) IN
         [m |-> "comb", f |-> "coef", xs |-> xs, n |-> FoldLeft(LAMBDA s, x : s + x, 0, xs) + (IF r[2] = 1 THEN 2 ELSE 0)]
C21R(g) ==
    LET k == Between(g, 1, 7)
        a == Between(k[2], 0, 40)  b == Between(a[2], 0, 30)  c == Between(b[2], 0, 25)  d == Between(c[2], 0, 9)
        e == Between(d[2], 0, 9)  f == Between(e[2], 0, 9)  h == Between(f[2], 0, 9)
        xs == SubSeq(<<a[1], b[1], c[1], d[1], e[1], f[1], h[1]>>, 1, k[1])
    IN [m |-> "comb", f |-> "coef", xs |-> xs, n |-> FoldLeft(LAMBDA s, x : s + x, 0, xs)]
=============================================================================
