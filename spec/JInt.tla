-------------------------------- MODULE JInt --------------------------------
(* C09 indefinite and C10 definite integrals, C11 the search tree, C23 families, C24 transforms. *)
EXTENDS JCalc

Both(t, env, n) == MAnd(Reg(t, env, n), TrigReg(t, env, n))

----------------------------------------------------------------------------
(* C09.  [e "int", in, var, bf, must, out, warned] *)
IsNone(t) == t = <<"none">>
\* the known finding about the integral of sec: log(sec(u) + tan(u)) without the absolute value
IsSecLog(u) == u[1] = "log" /\ u[2][1] = "sum" /\ Cardinality({v \in Subterms(u[2]) : v[1] = "fn" /\ v[2] \in {"sec", "tan"}}) >= 2
RECURSIVE SecAbs(_)        \* the same with it
SecAbs(t) ==
    LET ks == Kids(t) IN
    IF ks = <<>> THEN t
    ELSE LET u == WithKids(t, [i \in DOMAIN ks |-> SecAbs(ks[i])]) IN IF IsSecLog(u) THEN [u EXCEPT ![2] = <<"abs", @>>] ELSE u
\* F is an antiderivative of f with respect to x, and it is defined where f is
Antiderivative(F0, f, x, clause, strict) ==
    LET F == IF strict THEN F0 ELSE TLCEval(SecAbs(F0))
        m == MAnd(Both(f, Env, P), Both(F, Env, P))
        w == VMask(Ev(f, Env, P), m)
        r == CompareV(w, EvD(F, Env, P, x)[2], Digits(f, F), clause)
        wd == VStatus(VMask(w, LogReg(f, Env, P)))
        fd == VStatus(Ev(F, Env, P))
        gone == {i \in 1..P : wd[i] = 2 /\ fd[i] = 0}
    IN IF Fails(r) THEN r
       ELSE IF gone # {} THEN Bad(clause \o "-domain", "no value at point " \o ToString(CHOOSE i \in gone : \A j \in gone : i <= j))
       ELSE r

C09(ev) ==
    IF ev.e # "int" THEN Skip("other operation")
    ELSE LET t == ev["in"]  x == ev.var IN
    IF HasInf(t) THEN Skip("infinite")
    ELSE IF IsExc(ev.out) THEN
         IF CountEq(VStatus(VMask(Ev(t, Env, P), Both(t, Env, P))), 2) >= 1 THEN Bad("int-exception", ev.out[2] \o ": " \o ev.out[3]) ELSE Skip("undefined")
    ELSE IF IsNone(ev.out) THEN IF ev.warned THEN Skip("not integrated") ELSE Bad("none-without-warning", "")
    ELSE IF HasTag(ev.out, {"other"}) THEN Bad("int-no-expression", "")
    ELSE IF HasInf(ev.out) THEN IF CountEq(VStatus(VMask(Ev(t, Env, P), Both(t, Env, P))), 2) >= 1 THEN Bad("int-infinite", "") ELSE Skip("undefined")
    ELSE IF ~(SymbolsOf(ev.out) \subseteq SymbolsOf(t) \cup {x}) THEN Bad("int-symbols", "")
    ELSE Antiderivative(ev.out, t, x, "int", "strict" \in DOMAIN ev)

\* C23: the members of the families have to be solved
C23(ev) ==
    IF ev.e # "int" THEN Skip("other operation")
    ELSE IF IsNone(ev.out) THEN IF CountEq(VStatus(VMask(Ev(ev["in"], Env, P), Both(ev["in"], Env, P))), 2) >= 1 THEN Bad("not-solved", "") ELSE Skip("undefined")
    ELSE LET r == C09(ev) IN IF r.c = "no real value" THEN Ok ELSE r

----------------------------------------------------------------------------
(* C10.  [e "defint", in, var, a, b, out] *)
NCells == 160
DefPts == <<1, 4, 9>>
\* the integral at the i-th assignment
Integral(t, x, a, b, i) ==
    LET base == [s \in DOMAIN Env |-> VBcast(Env[s], i, NCells)]
        cells == [base EXCEPT ![x] = VCells(a, b, i, NCells)]
        mids == [base EXCEPT ![x] = VMids(a, b, i, NCells)]
        d == EvD(t, cells, NCells, x)
        m == Both(t, cells, NCells)
    IN VQuad(a, b, i, Ev(t, mids, NCells), VMask(d[1], m), d[2])
Join(vs) == FoldLeft(LAMBDA acc, v : acc \o v, <<>>, vs)
\* the i-th component of a vector
At(v, i) == VBcast(v, i, 1)
\* floats put into log(sec(u) + tan(u)) raise an exception where it has no value
SecLike(t) == \E u \in Subterms(t) : u[1] = "fn" /\ u[2] \in {"sec", "cos", "tan"}
SecFloat(ev) == ev.out[2] = "ValueError" /\ ev.out[3] = "math domain error" /\ SecLike(ev["in"])
C10(ev) ==
    IF ev.e # "defint" THEN Skip("other operation")
    ELSE LET t == ev["in"]  x == ev.var
             a == Ev(ev.a, Env, P)  b == Ev(ev.b, Env, P)
             closed == SymbolsOf(t) \subseteq {x} /\ SymbolsOf(ev.a) = {} /\ SymbolsOf(ev.b) = {}
             pts == IF closed THEN <<1>> ELSE DefPts
             want == Join([k \in DOMAIN pts |-> Integral(t, x, a, b, pts[k])])
             defined == CountEq(VStatus(want), 2) >= 1
         IN IF HasInf(t) \/ HasInf(ev.a) \/ HasInf(ev.b) THEN Skip("infinite")
            ELSE IF IsNone(ev.out) THEN Skip("not integrated")
            ELSE IF IsExc(ev.out) THEN IF defined /\ SecFloat(ev) THEN Skip("logarithm of a negative float: known finding about sec")
                                       ELSE IF defined THEN Bad("defint-exception", ev.out[2] \o ": " \o ev.out[3]) ELSE Skip("undefined")
            ELSE IF HasTag(ev.out, {"other"}) THEN Bad("defint-no-expression", "")
            ELSE IF ~(SymbolsOf(ev.out) \subseteq (SymbolsOf(t) \ {x}) \cup SymbolsOf(ev.a) \cup SymbolsOf(ev.b)) THEN Bad("defint-symbols", "")
            ELSE IF ~defined THEN Skip("not continuous")
            ELSE LET o == Ev(ev.out, Env, P)
                     got == Join([k \in DOMAIN pts |-> At(o, pts[k])])
                     r == CompareV(want, got, IF Approx(ev.out) \/ Approx(t) \/ Approx(ev.a) \/ Approx(ev.b) THEN 9 ELSE 0, "defint")
                     \* a root of a negative number cancels in the difference of the logarithms, as elsewhere in the library
                     rg == VStatus(VMask(VRat(P, 1, 1), Reg(ev.out, Env, P)))
                     gone == \E k \in DOMAIN pts : VStatus(want)[k] = 2 /\ VStatus(got)[k] = 0 /\ rg[pts[k]] = 2
                 IN IF ~Fails(r) /\ gone /\ ~SecLike(t) /\ ~HasTag(t, {"log"}) THEN Bad("defint-domain", "the result has no value")
                    ELSE IF r.c = "defint-undefined" THEN Skip("no real value")
                    ELSE r

----------------------------------------------------------------------------
(* C11.  [e "tree", in, var, bf, out, late, nodes], [e "nodes", root, ops, states], [e "search", graph, bf, late, res, warned, nodes] *)
\* what the types and the children imply: computed from the last node to the first (children have larger numbers)
Implied(ns) ==
    LET N == Len(ns)
        Step1(acc, j) ==
          LET k == N + 1 - j
              n == ns[k]
              S(c) == acc[c - k].sv
              F(c) == acc[c - k].fl
              sv == IF n.ty = "SOLUTION" THEN TRUE
                    ELSE IF n.ch = <<>> THEN FALSE
                    ELSE IF n.ty \in {"AND", "UNSET"} THEN \A i \in DOMAIN n.ch : S(n.ch[i])
                    ELSE IF n.ty = "OR" THEN \E i \in DOMAIN n.ch : S(n.ch[i])
                    ELSE FALSE
              fl == IF n.ty = "FAILURE" THEN TRUE
                    ELSE IF n.ch = <<>> THEN FALSE
                    ELSE IF n.ty = "OR" THEN \A i \in DOMAIN n.ch : F(n.ch[i])
                    ELSE \E i \in DOMAIN n.ch : F(n.ch[i])
              lv == IF n.ch = <<>> THEN {k} ELSE UNION {acc[n.ch[i] - k].lv : i \in DOMAIN n.ch}
              uf == IF n.ch = <<>> THEN (IF sv \/ fl THEN {} ELSE {k}) ELSE UNION {acc[n.ch[i] - k].uf : i \in DOMAIN n.ch}
          IN TLCEval(<<[sv |-> sv, fl |-> fl, lv |-> lv, uf |-> uf]>> \o acc)
    IN FoldLeft(Step1, <<>>, [j \in 1..N |-> j])
SetOf(s) == {s[i] : i \in DOMAIN s}
\* what the library reports about a tree against what the children imply
StatusBad(ns) ==
    LET im == TLCEval(Implied(ns))
        Done(k) == im[k].sv \/ im[k].fl
        RECURSIVE Ups(_)        \* the nodes above k
        Ups(k) == IF ns[k].pa \notin DOMAIN ns THEN {} ELSE {ns[k].pa} \cup Ups(ns[k].pa)
        Wrong(k) ==
          LET n == ns[k]  w == im[k] IN
          IF n.sv # w.sv THEN "is_solved"
          ELSE IF n.fl # w.fl THEN "is_failed"
          ELSE IF n.fn # (w.sv \/ w.fl) THEN "is_finished"
          ELSE IF SetOf(n.lv) # w.lv THEN "leaves"
          ELSE IF SetOf(n.uf) # w.uf THEN "unfinished_leaves"
          ELSE IF n.rt # 1 THEN "root"
          ELSE IF n.st # "" /\ n.st # ToString(~Done(k) /\ \E j \in Ups(k) : Done(j)) THEN "is_stale"
          ELSE IF n.di # -1 /\ n.di # Cardinality(Ups(k)) THEN "distance_from_root"
          ELSE IF SetOf(n.uc) # {n.ch[i] : i \in {j \in DOMAIN n.ch : ~Done(n.ch[j])}} THEN "unfinished_children"
          ELSE IF k = 1 /\ n.pa # 0 THEN "parent"
          ELSE IF \E i \in DOMAIN n.ch : ns[n.ch[i]].pa # k THEN "parent"
          ELSE ""
        bad == SelectSeq([k \in DOMAIN ns |-> <<k, Wrong(k)>>], LAMBDA r : r[2] # "")
    IN IF bad = <<>> THEN "" ELSE bad[1][2] \o " of node " \o ToString(bad[1][1])
\* of the root
Solved1(ns) == Implied(ns)[1].sv
Failed1(ns) == Implied(ns)[1].fl

RECURSIVE Under(_, _)       \* all nodes below k, with k
Under(ns, k) == {k} \cup UNION {Under(ns, ns[k].ch[i]) : i \in DOMAIN ns[k].ch}

\* an integrand over another variable may show the old variable x, but must not depend on it
Mixed(t, x) == /\ x \in SymbolsOf(t) /\ ~HasInf(t)
               /\ LET r == CompareV(VMask(EvD(t, Env, P, x)[2], Both(t, Env, P)), VRat(P, 0, 1), 9, "mixed") IN Fails(r) /\ r.c = "mixed"

C11Tree(ev) ==
    LET ns == ev.nodes
        st == StatusBad(ns)
        sols == {k \in DOMAIN ns : ~IsNone(ns[k].so) /\ ~HasInf(ns[k].so) /\ ~HasInf(ns[k].ex)}
        \* a filler that records u v of an integration by parts is no solution of its own integrand
        IsPart(k) == ns[k].fi /\ ns[k].ty = "SOLUTION" /\ ns[k].tr # "ByParts"
        Judge(k) == IF IsPart(k) THEN Ok
                    ELSE IF HasSub(ns[k].so, <<"sym", "leaked">>) THEN Bad("node-symbols", "node " \o ToString(k))
                    ELSE Antiderivative(ns[k].so, ns[k].ex, ns[k].var, "node-solution", FALSE)
        v == TLCEval([k \in sols |-> Judge(k)])
        wrong == {k \in sols : Fails(v[k])}
        \* integration by parts twice, closed into an equation: the nodes between the first step and the last one hold
        \* parts of the solution; the node where the first step started must be right
        jumps == {l \in DOMAIN ns : ns[l].fi /\ ns[l].ty = "SOLUTION" /\ ns[l].tr = "ByParts"}
        Closes(k) == jumps # {} /\ Under(ns, k) \cap jumps # {}
        Between1(f) == {k \in Under(ns, f) \ {f} : Closes(k)}
        \* (a start without a solution was not needed: what is below it was not put together)
        starts == {f \in DOMAIN ns : ns[f].fi /\ ns[f].tr = "ByParts" /\ ns[f].ty = "AND" /\ Closes(f) /\ f \notin wrong}
        excused == UNION {Between1(f) : f \in starts}
        real == wrong \ excused
        \* the summands of an AND node
        ands == {k \in DOMAIN ns : ns[k].ty = "AND" /\ ~HasInf(ns[k].ex) /\ \A i \in DOMAIN ns[k].ch : ~HasInf(ns[ns[k].ch[i]].ex)}
        Part(c) == IF IsPart(c) THEN EvD(SecAbs(ns[c].so), Env, P, ns[c].var)[2] ELSE Ev(SecAbs(ns[c].ex), Env, P)
        AndOk(k) == LET n == ns[k]
                        s == FoldLeft(LAMBDA acc, c : VAdd(acc, Part(c)), VRat(P, 0, 1), n.ch)
                        m == FoldLeft(LAMBDA acc, c : MAnd(acc, Both(SecAbs(ns[c].ex), Env, P)), Both(n.ex, Env, P), n.ch)
                    IN Closes(k) \/ ~Fails(CompareV(VMask(Ev(SecAbs(n.ex), Env, P), m), s, 9, "x")) 
        lost == {k \in ands : ~AndOk(k)}
    IN IF st # "" THEN Bad("status", st)
       ELSE IF ev.out = "expr" /\ ~Solved1(ns) THEN Bad("answer-without-solution", "")
       ELSE IF ev.out = "none" /\ Solved1(ns) THEN Bad("solution-without-answer", "")
       ELSE IF ev.out = "none" /\ ~Failed1(ns) /\ ~ev.late THEN Bad("gave-up", "")
       ELSE IF real # {} THEN LET k == CHOOSE k \in real : \A j \in real : k <= j IN Bad(v[k].c, "node " \o ToString(k) \o " " \o v[k].d)
       ELSE IF lost # {} THEN Bad("summands", "node " \o ToString(CHOOSE k \in lost : \A j \in lost : k <= j))
       ELSE IF \E k \in DOMAIN ns : ns[k].var # ev.var /\ Mixed(ns[k].ex, ev.var) THEN Bad("mixed", "node " \o ToString(CHOOSE k \in DOMAIN ns : ns[k].var # ev.var /\ Mixed(ns[k].ex, ev.var)))
       ELSE IF \E k \in DOMAIN ns : ns[k].ty = "UNSET" /\ Len(ns[k].ch) > 1 THEN Bad("type-unset", "")
       ELSE Ok

\* the tree that a history of operations builds
RECURSIVE Run(_, _)
Chain(ns, k) == LET RECURSIVE Up(_)
                    Up(j) == IF j = 0 THEN {} ELSE {j} \cup Up(ns[j].pa)
                IN Up(k)
Run(ns, ops) ==
    IF ops = <<>> THEN <<>>
    ELSE LET o == Head(ops)  k == o[2]
             n2 == TLCEval(IF o[1] = "type" THEN [ns EXCEPT ![k].ty = o[3]]
                   ELSE LET circular == \E j \in Chain(ns, k) : ns[j].ex = o[4]
                            nn == [ty |-> IF circular THEN "FAILURE" ELSE o[3], ch |-> <<>>, pa |-> k, ex |-> o[4]]
                        IN [i \in 1..(Len(ns) + 1) |-> IF i = Len(ns) + 1 THEN nn ELSE IF i = k THEN [ns[i] EXCEPT !.ch = @ \o <<Len(ns) + 1>>] ELSE ns[i]])
         IN <<n2>> \o Run(n2, Tail(ops))
C11Nodes(ev) ==
    LET model == TLCEval(Run(<<[ty |-> "UNSET", ch |-> <<>>, pa |-> 0, ex |-> ev.root]>>, ev.ops))
        Diff(i) == LET ns == ev.states[i]  mo == model[i] IN
                   IF Len(ns) # Len(mo) THEN "nodes"
                   ELSE IF \E k \in DOMAIN ns : ns[k].ty # mo[k].ty THEN "type"
                   ELSE IF \E k \in DOMAIN ns : ns[k].ch # mo[k].ch THEN "children"
                   ELSE StatusBad(ns)
        bad == {i \in DOMAIN ev.states : Diff(i) # ""}
    IN IF bad = {} THEN Ok ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN Bad("nodes", "after operation " \o ToString(i) \o ": " \o Diff(i))

\* the goals of an AND/OR graph that can be reached from the ones in the table
RECURSIVE Reach(_, _)
Reach(graph, s) ==
    LET s2 == {g \in DOMAIN graph : \E i \in DOMAIN graph[g] : \A j \in DOMAIN graph[g][i] : graph[g][i][j] \in s \cup {0}}
    IN IF s2 = s THEN s ELSE Reach(graph, s2)
C11Search(ev) ==
    LET solvable == 1 \in Reach(ev.graph, {}) IN
    IF ev.late THEN Skip("time limit")
    ELSE IF ev.res \notin {"none", "expr"} THEN Bad("search-exception", ev.res)
    ELSE IF solvable /\ ev.res = "none" THEN Bad("search-incomplete", "")
    ELSE IF ~solvable /\ ev.res = "expr" THEN Bad("search-unsound", "")
    ELSE IF ev.res = "none" /\ ~ev.warned THEN Bad("none-without-warning", "")
    ELSE IF ev.nodes # <<>> /\ StatusBad(ev.nodes) # "" THEN Bad("status", StatusBad(ev.nodes))
    ELSE IF ev.res = "none" /\ ev.nodes # <<>> /\ ~Failed1(ev.nodes) THEN Bad("gave-up", "")
    ELSE Ok

C11(ev) ==
    CASE ev.e = "tree" -> C11Tree(ev)
      [] ev.e = "nodes" -> C11Nodes(ev)
      [] ev.e = "search" -> C11Search(ev)
      [] OTHER -> Skip("other operation")

----------------------------------------------------------------------------
(* C24.  [e "law", tr, alt, in, var, k "law" | "exc", out, fs, ch]
   The transform turns the integral of f into the integrals of ch[k].ex over ch[k].var; from antiderivatives F_k of these it makes
   out[1] (with symbols for the F_k), and from F = id it makes out[2], which shows the substitution u(x).  As F_k' = ch[k].ex(u) u', the
   total derivative of out[1] has to be f whatever the values of the F_k. *)
C24(ev) ==
    IF ev.e # "law" THEN Skip("other operation")
    ELSE LET t == ev["in"]  x == ev.var IN
    IF HasInf(t) THEN Skip("infinite")
    ELSE IF ev.k = "exc" THEN
         IF CountEq(VStatus(VMask(Ev(t, Env, P), Both(t, Env, P))), 2) >= 1 THEN Bad("exception-" \o ev.tr, ev.out[2] \o ": " \o ev.out[3]) ELSE Skip("undefined")
    ELSE LET bs == ev.out[1]  bi == ev.out[2]
             n == Len(ev.fs)
             zero == [s \in {ev.fs[k] : k \in 1..n} |-> R(0)]
             g == EvD(Subst(bs, zero), Env, P, x)
             b == EvD(bs, Env, P, x)
             Cf(k) == EvD(bs, Env, P, ev.fs[k])[2]
             i == EvD(bi, Env, P, x)
             u == IF IsNone(bi) THEN <<Env[x], VRat(P, 1, 1)>> ELSE <<VDiv(VSub(i[1], g[1]), Cf(1)), VDiv(VSub(i[2], g[2]), Cf(1))>>
             Envk(k) == [Env EXCEPT ![ev.ch[k].var] = u[1]]
             sum == FoldLeft(LAMBDA acc, k : VAdd(acc, VMul(Cf(k), VMul(Ev(ev.ch[k].ex, Envk(k), P), u[2]))), b[2], [k \in 1..n |-> k])
             m0 == MAnd(Both(t, Env, P), Both(bs, Env, P))
             m1 == FoldLeft(LAMBDA m, k : MAnd(m, Both(ev.ch[k].ex, Envk(k), P)), m0, [k \in 1..n |-> k])
             \* roots that come in through sqrt(1 - sin^2) = cos: where the functions are positive
             roots == \E k \in 1..n : \E s \in Subterms(ev.ch[k].ex) : IsFracPow(s) /\ SymbolsOf(s[2]) # {}
             args == TrigArgs(t)
             m == IF ~roots THEN m1
                  ELSE FoldLeft(LAMBDA mm, a : MAnd(mm, LET y == Ev(a, Env, P) IN MAnd(VPosMask(VSin(y)), VPosMask(VCos(y)))), m1, SetToSeq(args))
             infinite == HasInf(bs) \/ HasInf(bi) \/ \E k \in 1..n : HasInf(ev.ch[k].ex)
             r == CompareV(VMask(Ev(t, Env, P), m), sum, IF Approx(t) THEN 9 ELSE 0, "law-" \o ev.tr)
         IN IF HasSub(bs, <<"sym", "leaked">>) \/ HasSub(bi, <<"sym", "leaked">>) \/ \E k \in 1..n : HasSub(ev.ch[k].ex, <<"sym", "leaked">>)
            THEN Bad("leaked-" \o ev.tr, "")
            \* a substitution leaves nothing of the old variable
            ELSE IF \E k \in 1..n : ev.ch[k].var # x /\ Mixed(ev.ch[k].ex, x) THEN Bad("mixed-" \o ev.tr, "")
            ELSE IF infinite THEN Skip("infinite")
            ELSE IF \E k \in 1..n : IsNone(bi) /\ ev.ch[k].var # x THEN Skip("no substitution")
            ELSE IF r.c = "law-" \o ev.tr \o "-undefined" THEN Skip("no real value") ELSE r
=============================================================================
