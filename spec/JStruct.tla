------------------------------- MODULE JStruct -------------------------------
(* C02 canonical forms, C14 comparisons, C15 matching, C16 queries, C17 polynomials, C18 numbers, C21 multinomials. *)
EXTENDS JCalc

IsBool(o) == o[1] = "bool"
Numeric(t) == t[1] \in {"rat", "big", "flt"}

----------------------------------------------------------------------------
(* C02 *)
ZeroT(t) == IsQ(t) /\ QSgn(QOf(t)) = 0
OneT(t) == IsQ(t) /\ QOf(t) = QOne
\* a term without its numeric coefficient
NonConst(t) ==
    IF t[1] = "prod" THEN LET fs == SelectSeq(Tail(t), LAMBDA u : ~Numeric(u)) IN IF Len(fs) = 1 THEN fs[1] ELSE AC(<<"prod">> \o fs)
    ELSE AC(t)
BaseOf(t) == IF t[1] = "pow" THEN t[2] ELSE t
CanonSum(t) ==
    /\ Len(t) >= 3
    /\ \A i \in 2..Len(t) : t[i][1] # "sum" /\ ~ZeroT(t[i])
    /\ Cardinality({i \in 2..Len(t) : Numeric(t[i])}) <= 1
    /\ LET rest == SelectSeq(Tail(t), LAMBDA u : ~Numeric(u)) IN Cardinality({NonConst(rest[i]) : i \in DOMAIN rest}) = Len(rest)
CanonProd(t) ==
    /\ Len(t) >= 3
    /\ \A i \in 2..Len(t) : t[i][1] # "prod" /\ ~ZeroT(t[i]) /\ ~OneT(t[i]) /\ ~(t[i][1] = "pow" /\ IsQ(t[i][3]) /\ QOf(t[i][3]) \in {QZero, QOne})
    /\ Cardinality({i \in 2..Len(t) : Numeric(t[i])}) <= 1
    /\ Cardinality({AC(BaseOf(t[i])) : i \in 2..Len(t)}) = Len(t) - 1
Canon(t) == CASE t[1] = "sum" -> CanonSum(t) [] t[1] = "prod" -> CanonProd(t) [] OTHER -> TRUE

\* known findings: products of a coefficient and a power of a number or a sum depend on the order; judged by strict probes only
FactorsOf(t) == IF t[1] = "prod" THEN {t[i] : i \in 2..Len(t)} ELSE {t}
OrderFinding(op, s) ==
    op = "prod" /\ LET fs == UNION {FactorsOf(s[i]) : i \in DOMAIN s} IN
        (\E u \in fs : Numeric(u)) /\ (\E u \in fs : u[1] = "sum" \/ (u[1] = "pow" /\ Numeric(u[2])))
\* the canonical form, but for that finding
CanonBut(ev) ==
    IF OrderFinding(ev.op, ev["in"]) /\ "strict" \notin DOMAIN ev /\ ev.out[1] = "prod"
    THEN LET fs == SelectSeq(Tail(ev.out), LAMBDA u : ~(u[1] = "pow" /\ Numeric(u[2]))) IN Len(fs) < 2 \/ Canon(<<"prod">> \o fs)
    ELSE Canon(ev.out)
C02(ev) ==
    IF ev.e # "canon" THEN Skip("other operation")
    ELSE LET want == SpecTerm(ev.op, ev["in"])
             excs == {i \in DOMAIN ev.outs : IsExc(ev.outs[i])}
             pin == ToPoly(want)
         IN IF HasInf(want) \/ (\E i \in DOMAIN ev.outs : HasInf(ev.outs[i])) THEN Skip("infinite")
            ELSE IF excs # {} THEN JudgeTerm(want, ev.outs[CHOOSE i \in excs : TRUE], "canon")
            ELSE IF Approx(want) /\ Len(ev.outs) > 1 THEN Skip("floats: rounding depends on the order")
            ELSE IF ~ev.same /\ OrderFinding(ev.op, ev["in"]) /\ "strict" \notin DOMAIN ev
                 THEN LET bad == {i \in DOMAIN ev.outs : Fails(JudgeTerm(want, ev.outs[i], "canon"))}
                      IN IF bad # {} THEN JudgeTerm(want, ev.outs[CHOOSE i \in bad : TRUE], "canon") ELSE Skip("coefficient times power of a number or sum: known finding, strict probes")
            ELSE IF ~ev.same THEN Bad("canon-order-matters", "")
            ELSE IF Len(ev.reprs) # 1 THEN Bad("canon-printed-forms-differ", ev.reprs[1] \o " and " \o ev.reprs[2])
            ELSE IF pin # <<>> THEN
                 LET pout == ToPoly(ev.out) IN
                 IF pout = <<>> \/ pout # pin THEN Bad("canon-terms", "")
                 ELSE IF Distributed(ev.out) /\ ~NormalShape(ev.out) THEN Bad("canon-normal-form", "")
                 ELSE IF ~CanonBut(ev) THEN Bad("canon-shape", "")
                 ELSE Ok
            ELSE IF ~CanonBut(ev) THEN Bad("canon-shape", "")
            ELSE LET r == JudgeTerm(want, ev.out, "canon") IN IF r.v = "skip" THEN Ok ELSE r

----------------------------------------------------------------------------
(* C14 *)
\* the same structure, numbers being compared by value: 1 yes, 0 no, 2 the definition does not say
RECURSIVE SameStruct(_, _)
Exact(t) == IsQ(t) \/ t[1] = "flt"
QVal(t) == IF IsQ(t) THEN QOf(t) ELSE <<BFltN(t[2]), BFltD(t[2])>>
VNum(t) == Ev(t, Env, P)
NumSame(a, b) ==
    IF a = b THEN 1
    ELSE IF a[1] = "nan" \/ b[1] = "nan" THEN 2
    ELSE IF a[1] \in {"inf", "ninf"} \/ b[1] \in {"inf", "ninf"} THEN 0
    ELSE IF Exact(a) /\ Exact(b) THEN IF QVal(a) = QVal(b) THEN 1 ELSE 0
    ELSE IF VLess(VNum(a), VNum(b), 1) = 1 \/ VLess(VNum(b), VNum(a), 1) = 1 THEN 0 ELSE 2
SameStruct(a, b) ==
    IF a = b THEN IF HasTag(a, {"nan"}) THEN 2 ELSE 1
    ELSE IF IsNum(a) \/ IsNum(b) THEN IF IsNum(a) /\ IsNum(b) THEN NumSame(a, b) ELSE 0
    ELSE IF a[1] # b[1] THEN 0
    ELSE IF a[1] = "fn" /\ a[2] # b[2] THEN 0
    ELSE LET ka == Kids(a)  kb == Kids(b) IN
         IF ka = <<>> \/ Len(ka) # Len(kb) THEN 0
         ELSE LET rs == [i \in DOMAIN ka |-> SameStruct(ka[i], kb[i])] IN
              IF \A i \in DOMAIN rs : rs[i] = 1 THEN 1
              ELSE IF a[1] \in {"sum", "prod"} /\ (AC(a) = AC(b) \/ HasTag(a, {"flt"}) \/ HasTag(b, {"flt"})) THEN 2
              ELSE IF \E i \in DOMAIN rs : rs[i] = 0 THEN 0
              ELSE 2
\* 1: a < b, 0: a >= b, 2: not decided
InfSign(t) == IF t[1] = "inf" THEN 1 ELSE IF t[1] = "ninf" THEN 0 - 1 ELSE 0
LessN(a, b) ==
    IF a[1] = "nan" \/ b[1] = "nan" THEN 2
    ELSE IF InfSign(a) # 0 \/ InfSign(b) # 0 THEN IF InfSign(a) < InfSign(b) THEN 1 ELSE 0
    ELSE IF a = b THEN 0
    ELSE IF Exact(a) /\ Exact(b) THEN IF QSgn(QAdd(QVal(a), <<BNeg(QVal(b)[1]), QVal(b)[2]>>)) < 0 THEN 1 ELSE 0
    ELSE VLess(VNum(a), VNum(b), 1)
BoolT(b) == <<"bool", b>>
C14(ev) ==
    IF ev.e # "cmp" THEN Skip("other operation")
    ELSE IF IsExc(ev.out) \/ IsExc(ev.mirror) THEN Bad("compare-exception", ev.op)
    ELSE LET a == ev["in"][1]  b == ev["in"][2]
             want == CASE ev.op = "eq" -> SameStruct(a, b)
                       [] ~IsNum(a) \/ ~IsNum(b) -> 2
                       [] ev.op = "lt" -> LessN(a, b)
                       [] ev.op = "gt" -> LessN(b, a)
                       [] ev.op = "le" -> LET l == LessN(b, a) IN IF l = 2 THEN 2 ELSE 1 - l
                       [] ev.op = "ge" -> LET l == LessN(a, b) IN IF l = 2 THEN 2 ELSE 1 - l
         IN IF ev.mirror # ev.out THEN IF want = 2 THEN Skip("not decided") ELSE Bad("compare-not-symmetric", ev.op)
            ELSE IF ev.op = "eq" /\ ev.ne # <<"none">> /\ ev.ne = ev.out THEN Bad("not-equal", "")
            ELSE IF want = 2 THEN Skip("not decided")
            ELSE IF ev.out # BoolT(want = 1) THEN Bad("compare-" \o ev.op, "") ELSE Ok

----------------------------------------------------------------------------
(* C15 *)
RECURSIVE SubstAny(_, _)
SubstAny(t, m) ==
    IF t[1] = "any" THEN IF \E i \in DOMAIN m : m[i][1] = t[2] THEN m[CHOOSE i \in DOMAIN m : m[i][1] = t[2]][2] ELSE t
    ELSE LET ks == Kids(t) IN IF ks = <<>> THEN t ELSE WithKids(t, [i \in DOMAIN ks |-> SubstAny(ks[i], m)])
C15(ev) ==
    IF ev.e # "match" THEN Skip("other operation")
    ELSE IF IsExc(ev.out) THEN
         IF ev.out[2] \in {"NotImplementedError", "ValueError"} /\ ~ev.must THEN Skip("refused") ELSE Bad("match-exception", ev.out[2] \o ": " \o ev.out[3])
    ELSE IF ev.out = BoolT(FALSE) THEN IF ev.must THEN Bad("match-missed", "") ELSE Skip("no match")
    ELSE LET inst == SubstAny(ev["in"][2], ev.matches)
             fac == IF ev.utf THEN <<"prod", ev.factor, inst>> ELSE inst
             all == IF ev.uts THEN <<"sum", fac, ev.rest>> ELSE fac
         IN IF HasTag(inst, {"any"}) THEN Bad("match-incomplete", "")
            ELSE IF HasTag(all, {"any", "other"}) THEN Bad("match-leaks-wildcards", "")
            ELSE IF HasInf(all) \/ InvOfTrig(all) THEN Skip("infinite")
            ELSE LET m == MAnd(Reg(ev["in"][1], Env, P), Reg(all, Env, P))
                     r == CompareV(VMask(Ev(ev["in"][1], Env, P), m), Ev(all, Env, P), Digits(ev["in"][1], all), "match")
                     \* known finding: a number as the coefficient of the pattern gives the reciprocal of the factor
                     recip == <<"prod", <<"pow", ev.factor, R(0 - 1)>>, inst>>
                     known == /\ Fails(r) /\ ev.utf /\ ~ev.uts /\ "strict" \notin DOMAIN ev
                              /\ ev["in"][2][1] = "prod" /\ (\E i \in 2..Len(ev["in"][2]) : Numeric(ev["in"][2][i]))
                              /\ CompareV(Ev(ev["in"][1], Env, P), Ev(recip, Env, P), Digits(ev["in"][1], recip), "").v = "ok"
                 IN IF r.v = "skip" /\ EqualUpToOrder(ev["in"][1], all) THEN Ok
                    ELSE IF known THEN Skip("reciprocal factor: known finding, strict probes") ELSE r

----------------------------------------------------------------------------
(* C16 *)
ClassOf(t) ==
    CASE t[1] \in {"rat", "big"} -> {"Rat", "Num"}
      [] t[1] = "flt" -> {"Float", "Num"}
      [] t[1] = "pi" -> {"Pi", "Num"}
      [] t[1] = "e" -> {"E", "Num"}
      [] t[1] \in {"inf", "ninf", "nan"} -> {"Num"}
      [] t[1] = "sym" -> {"Symbol"}
      [] t[1] = "sum" -> {"Sum"}
      [] t[1] = "prod" -> {"Prod"}
      [] t[1] = "pow" -> {"Power"}
      [] t[1] = "log" -> {"log"}
      [] t[1] = "abs" -> {"Abs", "SingleFunc"}
      [] t[1] = "fn" -> {t[2], "SingleFunc", "TrigFunction"} \cup (IF t[2] \in Trigs THEN {"TrigFunctionNotInverse"} ELSE {})
      [] OTHER -> {}
HasClass(t, c) == \E u \in Subterms(t) : c \in ClassOf(u)
\* occurrences that are not inside another occurrence
RECURSIVE CountT(_, _)
CountT(t, q) == IF t = q THEN 1 ELSE LET ks == Kids(t) IN FoldLeft(LAMBDA acc, k : acc + CountT(k, q), 0, ks)
SymLeaves(t) == Len(SelectSeq(Nodes(t), LAMBDA u : u[1] = "sym"))
MaxOf(s) == FoldLeft(LAMBDA acc, k : IF k > acc THEN k ELSE acc, 0, s)
\* the complexity: a coefficient -1 and an exponent -1 do not count; x = "" for any symbol
RECURSIVE Nest(_, _)
NestChild(t, x) == IF t[1] = "pow" /\ t[3] = R(0 - 1) THEN Nest(t[2], x) ELSE Nest(t, x)
Nest(t, x) ==
    IF x # "" /\ x \notin SymbolsOf(t) THEN 0
    ELSE IF t[1] = "prod" /\ Len(t) = 3 /\ t[2] = R(0 - 1) THEN NestChild(t[3], x)
    ELSE IF t[1] = "sym" THEN IF x = "" \/ t[2] = x THEN 1 ELSE 0
    ELSE LET ks == Kids(t) IN IF ks = <<>> THEN 0 ELSE 1 + MaxOf([i \in DOMAIN ks |-> NestChild(ks[i], x)])
\* with the variable renamed to something that cannot occur
Marked(t, x) == Subst(t, [s \in {x} |-> <<"sym", "  ">>])
RECURSIVE ReplaceT(_, _, _)
ReplaceT(t, q, n) == IF t = q THEN n ELSE LET ks == Kids(t) IN IF ks = <<>> THEN t ELSE WithKids(t, [i \in DOMAIN ks |-> ReplaceT(ks[i], q, n)])
\* sin(u) -> cos(u), tan(u) -> u^2 + 2
RECURSIVE SwapFns(_)
SwapFns(t) ==
    LET ks == Kids(t) IN
    IF ks = <<>> THEN t
    ELSE LET u == [i \in DOMAIN ks |-> SwapFns(ks[i])] IN
         CASE t[1] = "fn" /\ t[2] = "sin" -> <<"fn", "cos", u[1]>>
           [] t[1] = "fn" /\ t[2] = "tan" -> <<"sum", <<"pow", u[1], R(2)>>, R(2)>>
           [] OTHER -> WithKids(t, u)
IntT(n) == <<"int", n>>
\* numbers are equal by value (3 = 3.0), so occurrences cannot be told from the trees
LooseNums(q, t) == (HasTag(q, {"flt"}) /\ HasTag(t, {"rat", "big"})) \/ (HasTag(q, {"rat", "big"}) /\ HasTag(t, {"flt"}))
Expect(out, want, clause) == IF out = want THEN Ok ELSE Bad(clause, "expected " \o ToString(want[2]))
C16(ev) ==
    IF ev.e # "query" THEN Skip("other operation")
    ELSE LET t == ev["in"]  a == ev.arg  f == ev.f IN
    IF HasInf(t) THEN Skip("infinite")
    ELSE IF f \in {"replace", "replace_class"} THEN
        LET want == IF f = "replace" THEN ReplaceT(t, a.q, a.n) ELSE SwapFns(t) IN
        IF HasInf(want) \/ InvOfTrig(want) \/ InvOfTrig(t) THEN Skip("infinite or inverse of trig")
        ELSE IF f = "replace" /\ LooseNums(a.q, t) THEN Skip("rationals and floats")
        ELSE IF want = t /\ ~EqualUpToOrder(ev.out, t) THEN Bad(f \o "-changed", "")
        ELSE IF ~IsExc(ev.out) /\ ~(SymbolsOf(ev.out) \subseteq SymbolsOf(want)) THEN Bad(f \o "-leftover", "")
        ELSE JudgeTerm(want, ev.out, f)
    ELSE IF IsExc(ev.out) THEN Bad(f \o "-exception", ev.out[2] \o ": " \o ev.out[3])
    ELSE CASE f = "symbols" -> IF {ev.out[i] : i \in 2..Len(ev.out)} # SymbolsOf(t) THEN Bad("symbols", "")
                               ELSE IF Len(ev.out) - 1 # Cardinality(SymbolsOf(t)) THEN Bad("symbols-duplicates", "") ELSE Ok
           [] f = "contains" -> Expect(ev.out, BoolT(a.v \in SymbolsOf(t)), f)
           [] f = "has" -> Expect(ev.out, BoolT(HasClass(t, a.v)), f)
           [] f = "count" -> IF LooseNums(a.q, t) THEN Skip("rationals and floats") ELSE Expect(ev.out, IntT(CountT(t, a.q)), f)
           [] f = "nesting" -> Expect(ev.out, IntT(Nest(t, "")), f)
           [] f = "nesting_var" -> Expect(ev.out, IntT(Nest(t, a.v)), f)
           [] f = "count_symbols" -> Expect(ev.out, IntT(SymLeaves(t)), f)
           [] f = "eq_with_var" ->
                LET m == Marked(t, a.v)  n == Marked(a.q, a.w)
                    s == SameStruct(m, n)
                IN IF m = n THEN Expect(ev.out, BoolT(TRUE), f) ELSE IF s # 0 THEN Skip("not decided") ELSE Expect(ev.out, BoolT(FALSE), f)

----------------------------------------------------------------------------
(* C17 *)
XSym == <<"sym", "x">>
XMono(k) == IF k = 0 THEN {} ELSE {<<XSym, <<BStr(k), "1">>>>}
\* the polynomial is one in x with rational coefficients
InX(p) == \A m \in DOMAIN p : m = {} \/ (Cardinality(m) = 1 /\ \A e \in m : e[1] = XSym /\ QIsInt(e[2]) /\ QSgn(e[2]) > 0)
\* ... it is certainly not a polynomial in x: x has a negative or broken exponent, or is inside a function
NotPoly(p) == \E m \in DOMAIN p : \E e \in m : (e[1] = XSym /\ ~(QIsInt(e[2]) /\ QSgn(e[2]) > 0)) \/ (e[1] # XSym /\ "x" \in SymbolsOf(e[1]))
\* the polynomial with a list of rational coefficients
RECURSIVE PList(_, _)
PList(cs, k) == IF cs = <<>> THEN PZero ELSE PAdd(PNorm([m \in {XMono(k)} |-> QOf(cs[1])]), PList(Tail(cs), k + 1))
AllQ(cs) == \A i \in DOMAIN cs : IsQ(cs[i])
RECURSIVE DropZeros(_)
DropZeros(cs) == IF cs # <<>> /\ (ZeroT(cs[Len(cs)]) \/ cs[Len(cs)] \in {<<"flt", "0.0">>, <<"flt", "-0.0">>}) THEN DropZeros(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
ListTerm(cs) == <<"sum", R(0)>> \o [i \in DOMAIN cs |-> <<"prod", cs[i], <<"pow", XSym, R(i - 1)>>>>]
ValueIs(want, got, clause) == LET r == JudgeTerm(want, got, clause) IN IF r.v = "skip" THEN Ok ELSE r
C17(ev) ==
    IF ev.e # "poly" THEN Skip("other operation")
    ELSE CASE ev.f = "to" ->
            (LET p == ToPoly(ev["in"])
                 refused == IsExc(ev.out) /\ ev.out[2] = "AssertionError"
                 cs == Tail(ev.out)
             IN IF ev.is # ~IsExc(ev.out) THEN Bad("is-polynomial-disagrees", "")
                ELSE IF IsExc(ev.out) /\ ~refused THEN Bad("poly-exception", ev.out[2] \o ": " \o ev.out[3])
                ELSE IF p # <<>> /\ InX(p[1]) THEN
                     IF refused THEN Bad("poly-refused", "")
                     ELSE IF ~AllQ(cs) \/ PList(cs, 0) # p[1] THEN Bad("poly-coefficients", "")
                     ELSE IF IsExc(ev.back) \/ ToPoly(ev.back) # p THEN Bad("poly-round-trip", "") ELSE Ok
                ELSE IF p # <<>> /\ NotPoly(p[1]) THEN IF refused THEN Ok ELSE Bad("poly-not-refused", "")
                ELSE IF refused THEN Skip("refused")
                ELSE IF \E i \in DOMAIN cs : "x" \in SymbolsOf(cs[i]) THEN Bad("poly-not-refused", "")
                ELSE JudgeTerm(ev["in"], ListTerm(cs), "poly-value"))
      [] ev.f = "from" -> (IF IsExc(ev.out) THEN Bad("from-exception", "") ELSE IF ToPoly(ev.out) # <<PList(Tail(ev["in"]), 0)>> THEN Bad("from-value", "") ELSE Ok)
      [] ev.f = "zeros" -> (IF IsExc(ev.out) \/ Tail(ev.out) # DropZeros(Tail(ev["in"])) THEN Bad("ending-zeros", "") ELSE Ok)
      [] ev.f = "invert" ->
            (LET m == Tail(ev["in"])
                 det == <<"sum", <<"prod", m[1], m[4]>>, <<"prod", R(0 - 1), m[2], m[3]>>>>
                 pd == ToPoly(det)
             IN IF pd # <<>> /\ pd[1] = PZero THEN IF ev.out = <<"none">> THEN Ok ELSE IF AllQ(m) THEN Bad("invert-singular", "") ELSE Skip("singular")
                ELSE IF ev.out = <<"none">> THEN Bad("invert-refused", "")
                ELSE IF IsExc(ev.out) THEN Bad("invert-exception", ev.out[2] \o ev.out[3])
                ELSE LET n == Tail(ev.out)
                         E1(i, j) == <<"sum", <<"prod", m[2 * i + 1], n[j + 1]>>, <<"prod", m[2 * i + 2], n[j + 3]>>>>
                         rs == [k \in 1..4 |-> LET i == (k - 1) \div 2  j == (k - 1) % 2
                                                   one == R(IF i = j THEN 1 ELSE 0)
                                               IN IF AllQ(m) THEN IF AllQ(n) /\ ToPoly(E1(i, j)) = ToPoly(one) THEN Ok ELSE Bad("invert-product", "")
                                                  ELSE CompareV(Ev(E1(i, j), Env, P), Ev(one, Env, P), 0, "invert-product")]
                     IN IF \E k \in 1..4 : Fails(rs[k]) THEN rs[CHOOSE k \in 1..4 : Fails(rs[k])] ELSE Ok)

----------------------------------------------------------------------------
(* C18 *)
QFloor(q) == <<BDivFloor(q[1], q[2]), "1">>
QLess(a, b) == QSgn(QSub(a, b)) < 0
QTerm(q) == <<"q", q[1], q[2]>>
IsInf(t) == t[1] \in {"inf", "ninf"}
SgnT(t) == CASE t[1] = "inf" -> 1 [] t[1] = "ninf" -> 0 - 1 [] IsQ(t) -> QSgn(QOf(t)) [] OTHER -> IF VPosMask(VNum(t))[1] = 1 THEN 1 ELSE IF VPosMask(VNeg(VNum(t)))[1] = 1 THEN 0 - 1 ELSE 0
InfT(s) == IF s > 0 THEN {<<"inf">>} ELSE {<<"ninf">>}
\* the results that arithmetic with infinities allows; {} if it says nothing
Zeros == {<<"rat", 0, 1>>, <<"flt", "0.0">>, <<"flt", "-0.0">>}
InfRule(op, a, b) ==
    LET ia == IsInf(a)  ib == IsInf(b)  sa == SgnT(a)  sb == SgnT(b) IN
    CASE op = "add" -> IF ia /\ ib THEN IF sa = sb THEN {a} ELSE {} ELSE IF ia THEN {a} ELSE {b}
      [] op = "sub" -> IF ia /\ ib THEN IF sa # sb THEN {a} ELSE {} ELSE IF ia THEN {a} ELSE InfT(0 - sb)
      [] op = "mul" -> IF sa = 0 \/ sb = 0 THEN {} ELSE InfT(sa * sb)
      [] op = "div" -> IF ib THEN IF ia THEN {} ELSE {<<"rat", 0, 1>>, <<"flt", "0.0">>, <<"flt", "-0.0">>} ELSE IF sb = 0 THEN {} ELSE InfT(sa * sb)
      [] op = "pow" -> (* a limit of powers of positive numbers, or an integer power of an infinity *)
           IF ib THEN LET big == LessN(<<"rat", 1, 1>>, a)  small == LessN(a, <<"rat", 1, 1>>)  up == IF sb > 0 THEN big ELSE small IN
                      IF sa <= 0 \/ big = 2 \/ small = 2 \/ big = small THEN {} ELSE IF up = 1 THEN InfT(1) ELSE Zeros
           ELSE IF sb = 0 THEN {} ELSE IF sb < 0 THEN Zeros ELSE IF sa > 0 THEN InfT(1) ELSE IF b[1] = "rat" /\ b[3] = 1 THEN InfT(IF b[2] % 2 = 0 THEN 1 ELSE 0 - 1) ELSE {}
      [] OTHER -> {}
FloatClose(want, got) ==      \* a float near the exact result, or an infinity when it is too large
    IF IsInf(got) THEN Skip("overflow") ELSE IF ~Numeric(got) THEN Bad("float-lost", "") ELSE CompareV(want, VNum(got), 12, "float-value")
C18(ev) ==
    IF ev.e # "num" THEN Skip("other operation")
    ELSE LET a == ev["in"]  op == ev.op  o == ev.out
             exact == \A i \in DOMAIN a : IsQ(a[i])
             q1 == IF exact THEN QOf(a[1]) ELSE QZero
             q2 == IF exact /\ Len(a) > 1 THEN QOf(a[2]) ELSE QZero
             ExactIs(q) == IF IsExc(o) THEN Bad("num-exception", op \o " " \o o[2]) ELSE IF IsQ(o) /\ QOf(o) = q THEN Ok ELSE Bad("num-" \o op, "expected " \o q[1] \o "/" \o q[2])
             ByValue(w) == IF IsExc(o) THEN Bad("num-exception", op \o " " \o o[2]) ELSE IF Approx(o) THEN Bad("num-became-float", op) ELSE CompareV(w, Ev(o, Env, P), 0, "num-" \o op)
             RootIs(k) == \* k-th root of a rational
                 LET w == VPowRat(Ev(a[1], Env, P), 1, k) IN
                 IF QSgn(q1) < 0 THEN IF IsExc(o) THEN Bad("num-exception", op) ELSE IF k % 2 = 0 THEN Skip("root of a negative number") ELSE ByValue(w)
                 ELSE LET r == <<BRoot(q1[1], k), BRoot(q1[2], k)>> IN
                      IF r[1] # "" /\ r[2] # "" THEN ExactIs(r) ELSE ByValue(w)
         IN IF exact THEN
              CASE op = "add" -> ExactIs(QAdd(q1, q2))
                [] op = "sub" -> ExactIs(QSub(q1, q2))
                [] op = "mul" -> ExactIs(QMul(q1, q2))
                [] op = "div" -> IF QSgn(q2) # 0 THEN ExactIs(QDiv(q1, q2)) ELSE IF QSgn(q1) = 0 THEN Skip("0/0") ELSE IF IsInf(o) THEN Ok ELSE Bad("num-division-by-zero", "")
                [] op = "floordiv" -> IF QSgn(q2) = 0 THEN Skip("x//0") ELSE ExactIs(QFloor(QDiv(q1, q2)))
                [] op = "mod" -> IF QSgn(q2) = 0 THEN Skip("x mod 0") ELSE ExactIs(QSub(q1, QMul(q2, QFloor(QDiv(q1, q2)))))
                [] op = "neg" -> ExactIs(QNeg(q1))
                [] op = "abs" -> ExactIs(IF QSgn(q1) < 0 THEN QNeg(q1) ELSE q1)
                [] op = "reciprocal" -> IF QSgn(q1) = 0 THEN Skip("1/0") ELSE ExactIs(QInv(q1))
                [] op = "eq" -> Expect(o, BoolT(q1 = q2), "num-eq")
                [] op = "lt" -> Expect(o, BoolT(QLess(q1, q2)), "num-lt")
                [] op = "le" -> Expect(o, BoolT(~QLess(q2, q1)), "num-le")
                [] op = "sqrt" -> RootIs(2)
                [] op = "cbrt" -> RootIs(3)
                [] op = "root4" -> RootIs(4)
                [] op = "pow" ->
                     IF a[2][1] # "rat" \/ (a[2][3] = 1 /\ (a[2][2] > 400 \/ a[2][2] < 0 - 400)) THEN Skip("large exponent")
                     ELSE IF QSgn(q1) = 0 /\ QSgn(q2) <= 0 THEN Skip("0^-n")
                     ELSE IF a[2][3] = 1 THEN ExactIs(QPow(q1, a[2][2]))
                     ELSE IF QSgn(q1) < 0 THEN Skip("root of a negative number")
                     ELSE LET r == <<BRoot(q1[1], a[2][3]), BRoot(q1[2], a[2][3])>> IN
                          IF r[1] # "" /\ r[2] # "" THEN ExactIs(QPow(r, a[2][2])) ELSE ByValue(VPowRat(Ev(a[1], Env, P), a[2][2], a[2][3]))
                [] OTHER -> Skip("other operation")
            ELSE IF op \in {"eq", "lt", "le"} THEN
                 LET w == CASE op = "eq" -> SameStruct(a[1], a[2]) [] op = "lt" -> LessN(a[1], a[2]) [] op = "le" -> (LET l == LessN(a[2], a[1]) IN IF l = 2 THEN 2 ELSE 1 - l)
                 IN IF IsExc(o) THEN Bad("num-exception", op) ELSE IF w = 2 THEN Skip("not decided") ELSE Expect(o, BoolT(w = 1), "num-" \o op)
            ELSE IF IsExc(o) THEN IF op \in {"add", "sub", "mul"} THEN Bad("num-exception", op \o " " \o o[2]) ELSE Skip("exception")
            ELSE IF \E i \in DOMAIN a : IsInf(a[i]) THEN
                 LET s == InfRule(op, a[1], a[2]) IN IF s = {} THEN Skip("no rule") ELSE IF o \in s THEN Ok ELSE Bad("inf-" \o op, "")
            ELSE IF op \in {"add", "sub", "mul", "div"} THEN FloatClose(Ev(SpecTerm(op, a), Env, P), o)
            ELSE IF op = "pow" /\ SgnT(a[1]) > 0 THEN FloatClose(Ev(SpecTerm(op, a), Env, P), o)
            ELSE Skip("other operation")

----------------------------------------------------------------------------
(* C21 *)
RECURSIVE Vectors(_, _)       \* all vectors of i naturals with sum n
Vectors(i, n) == IF i = 0 THEN IF n = 0 THEN {<<>>} ELSE {} ELSE UNION {{<<k>> \o v : v \in Vectors(i - 1, n - k)} : k \in 0..n}
RECURSIVE BFact(_)
BFact(n) == IF n = 0 THEN "1" ELSE BMul(n, BFact(n - 1))
C21(ev) ==
    IF ev.e # "comb" THEN Skip("other operation")
    ELSE IF IsExc(ev.out) THEN Bad("comb-exception", ev.out[2])
    ELSE IF ev.f = "perms" THEN
         LET got == Tail(ev.out)  want == Vectors(ev.i, ev.n0) IN
         IF {got[k] : k \in DOMAIN got} # want THEN Bad("vectors", "") ELSE IF Len(got) # Cardinality(want) THEN Bad("vectors-repeated", "") ELSE Ok
    ELSE LET xs == ev["in"]
             s == FoldLeft(LAMBDA acc, x : acc + x, 0, xs)
             d == FoldLeft(LAMBDA acc, x : BMul(acc, BFact(x)), BFact(ev.n0 - s), xs)
         IN IF s > ev.n0 THEN Skip("not a coefficient")
            ELSE IF ev.out = <<"num", BDivFloor(BFact(ev.n0), d)>> THEN Ok ELSE Bad("coefficient", "expected " \o BDivFloor(BFact(ev.n0), d))
=============================================================================
