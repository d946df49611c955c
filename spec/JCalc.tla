-------------------------------- MODULE JCalc --------------------------------
(* C04 expand, C05 subs, C06 evalf, C07 diff, C08 simplification, C22 product to sum. *)
EXTENDS JArith, Poly

\* inverse function of a trigonometric one: judged on principal branches only, and subject to the finding on reciprocals
InvOfTrig(t) == \E u \in Subterms(t) : u[1] = "fn" /\ u[2] \in Inverses /\ u[3][1] = "fn" /\ u[3][2] \in Trigs
HasInf(t) == HasTag(t, {"inf", "ninf", "nan"})
Fails(r) == r.v = "bad"

----------------------------------------------------------------------------
(* C04.  [e "call", f "expand", in, out, expandable, again] *)
\* somewhere in the tree a product with a sum as a factor, or a positive integer power of a sum, is left
Multiplied(u) ==
    \/ u[1] = "prod" /\ \E i \in 2..Len(u) : u[i][1] = "sum"
    \/ u[1] = "pow" /\ u[2][1] = "sum" /\ IsInt(u[3]) /\ u[3][2] >= 2
\* (x + 1)^(1/2) and e^(x + 1): their powers merge to new powers of sums while a product is expanded
Merging(t) == \E u \in Subterms(t) : u[1] = "pow" /\ ((u[2][1] = "sum" /\ ~IsInt(u[3])) \/ u[3][1] = "sum")
Undistributed(t) == \E u \in Subterms(t) : Multiplied(u)
C04(ev) ==
    IF ev.e # "call" THEN Skip("other operation")
    ELSE IF HasInf(ev["in"]) THEN Skip("infinite")
    ELSE LET pin == ToPoly(ev["in"]) IN
    IF ~ev.expandable THEN
        IF ~(IsExc(ev.out) /\ ev.out[2] = "AssertionError") THEN Bad("expand-not-refused", "")
        ELSE IF pin # <<>> /\ ~Distributed(ev["in"]) THEN Bad("not-announced", "")
        ELSE IF Undistributed(ev["in"]) THEN Bad("not-announced", "")
        ELSE IF pin = <<>> THEN Skip("not a polynomial") ELSE Ok
    ELSE IF pin # <<>> THEN
        IF IsExc(ev.out) THEN Bad("expand-exception", ev.out[2] \o ev.out[3])
        ELSE LET pout == ToPoly(ev.out) IN
             IF pout = <<>> \/ pout # pin THEN Bad("expand-polynomial", "")
             ELSE IF ~NormalShape(ev.out) THEN Bad("expand-normal-form", "")
             ELSE IF ev.again THEN Bad("expandable-again", "")
             ELSE Ok
    ELSE IF ~IsExc(ev.out) /\ ~Merging(ev["in"]) /\ Undistributed(ev.out) THEN Bad("expand-undistributed", "")
    ELSE JudgeTerm(ev["in"], ev.out, "expand-value")

----------------------------------------------------------------------------
(* C05.  [e "call", f "subs", in, arg: sequence of <<name, term>>, out] *)
Sigma(arg) == [s \in {arg[i][1] : i \in DOMAIN arg} |-> (CHOOSE i \in DOMAIN arg : arg[i][1] = s)]
C05(ev) ==
    IF ev.e # "call" THEN Skip("other operation")
    ELSE LET sg == Sigma(ev.arg)
             sigma == [s \in DOMAIN sg |-> ev.arg[sg[s]][2]]
             t == ev["in"]
             want == Subst(t, sigma)
             moved == {s \in DOMAIN sigma : sigma[s] # <<"sym", s>>}
             left == (SymbolsOf(t) \ DOMAIN sigma) \cup UNION {SymbolsOf(sigma[s]) : s \in DOMAIN sigma \cap SymbolsOf(t)}
         IN IF HasInf(want) \/ InvOfTrig(want) \/ InvOfTrig(t) THEN Skip("infinite, or inverse of trig")
            ELSE IF IsExc(ev.out) THEN JudgeTerm(want, ev.out, "subs")
            ELSE IF moved \cap SymbolsOf(t) = {} /\ ~MergesNumbers(t) /\ ~EqualUpToOrder(t, ev.out) THEN Bad("subs-not-identity", "")
            ELSE IF ~(SymbolsOf(ev.out) \subseteq left) THEN Bad("subs-leftover", "")
            ELSE LET r == JudgeTerm(want, ev.out, "subs")
                 IN IF r.v = "skip" /\ moved \cap SymbolsOf(t) = {} THEN Ok ELSE r

----------------------------------------------------------------------------
(* C06.  [e "call", f "evalf", in, arg, out] *)
IsNumber(t) == t[1] \in {"rat", "big", "flt"}
C06(ev) ==
    IF ev.e # "call" THEN Skip("other operation")
    ELSE LET sg == Sigma(ev.arg)
             sigma == [s \in DOMAIN sg |-> ev.arg[sg[s]][2]]
             want == Subst(ev["in"], sigma)
             w == EvReg(want, Env, P)
             closed == SymbolsOf(want) = {}
             defined == CountEq(VStatus(w), 2) >= 1
         IN IF HasInf(want) \/ InvOfTrig(ev["in"]) THEN Skip("infinite, or inverse of trig")
            ELSE IF IsExc(ev.out) THEN IF defined THEN Bad("evalf-exception", ev.out[2] \o ": " \o ev.out[3]) ELSE Skip("undefined")
            ELSE IF closed /\ defined /\ ~IsNumber(ev.out) THEN Bad("evalf-not-a-number", "")
            ELSE IF ~(SymbolsOf(ev.out) \subseteq SymbolsOf(want)) THEN Bad("evalf-leftover", "")
            ELSE CompareV(w, Ev(ev.out, Env, P), 9, "evalf")

----------------------------------------------------------------------------
(* C07.  [e "call", f "diff", in, arg: name, out] *)
\* both the base and the exponent contain x: refused by the library
SymExp(t, x) == \E u \in Subterms(t) : u[1] = "pow" /\ x \in SymbolsOf(u[2]) /\ x \in SymbolsOf(u[3])
C07(ev) ==
    IF ev.e # "call" THEN Skip("other operation")
    ELSE LET t == ev["in"]
             x == ev.arg
             m == Reg(t, Env, P)
             w == VMask(EvD(t, Env, P, x)[2], m)
         IN IF HasInf(t) THEN Skip("infinite")
            ELSE IF IsExc(ev.out) THEN
                IF ev.out[2] = "NotImplementedError" /\ SymExp(t, x) THEN Skip("u(x)^v(x)")
                ELSE IF CountEq(VStatus(w), 2) >= 1 THEN Bad("diff-exception", ev.out[2] \o ": " \o ev.out[3]) ELSE Skip("undefined")
            ELSE IF x \notin SymbolsOf(t) THEN
                IF ev.out \in {R(0), <<"flt", "0.0">>, <<"flt", "-0.0">>} THEN Ok
                ELSE IF CountEq(VStatus(VMask(Ev(t, Env, P), m)), 2) >= 1 THEN Bad("diff-of-constant", "") ELSE Skip("undefined")
            ELSE IF ~(SymbolsOf(ev.out) \subseteq SymbolsOf(t)) THEN Bad("diff-symbols", "")
            ELSE CompareV(w, Ev(ev.out, Env, P), Digits(t, ev.out), "diff")

----------------------------------------------------------------------------
(* C08, C22 *)
\* positive factors inside logarithms
RECURSIVE LogReg(_, _, _)
Factors(t) == CASE t[1] = "prod" -> UNION {LET u == t[i] IN IF u[1] = "pow" THEN {u[2]} ELSE {u} : i \in 2..Len(t)}
                [] t[1] = "pow" -> {t[2]}
                [] OTHER -> {t}
LogReg(t, env, n) ==
    LET args == {u[2] : u \in {v \in Subterms(t) : v[1] = "log"}}
        fs == UNION {Factors(IF a[1] = "abs" THEN a[2] ELSE a) : a \in args}
    IN FoldLeft(LAMBDA m, u : MAnd(m, VPosMask(Ev(u, env, n))), MOnes(n), SetToSeq(fs))

JudgeRewrite(t, out, clause) ==
    LET m0 == MAnd(Reg(t, Env, P), TrigReg(t, Env, P))
        logs == HasTag(t, {"log"})
        m == IF logs THEN MAnd(m0, LogReg(t, Env, P)) ELSE m0
        w == VMask(Ev(t, Env, P), m)
    IN IF HasInf(t) \/ InvOfTrig(t) THEN Skip("infinite, or inverse of trig")
       ELSE IF IsExc(out) THEN IF CountEq(VStatus(VMask(Ev(t, Env, P), m0)), 2) >= 1 THEN Bad(clause \o "-exception", out[2] \o ": " \o out[3]) ELSE Skip("undefined")
       ELSE IF ~(SymbolsOf(out) \subseteq SymbolsOf(t)) THEN Bad(clause \o "-symbols", "")
       ELSE LET r == CompareV(w, Ev(out, Env, P), Digits(t, out), clause) IN
            IF r.c = clause \o "-undefined" /\ logs THEN Skip("log of a negative factor") ELSE r

C08(ev) ==
    IF ev.e # "call" THEN Skip("other operation")
    ELSE IF ev.out = <<"none">> THEN
         IF ev.f \in {"onefrac", "onefrac0"} THEN Ok ELSE Bad(ev.f \o "-none", "")
    ELSE IF ev.f \in {"numden", "constfactor"} /\ ~IsExc(ev.out) THEN
         LET a == ev.out[2]  b == ev.out[3] IN
         IF ev.f = "constfactor" /\ SymbolsOf(b) # {} THEN Bad("constfactor-not-constant", "")
         ELSE JudgeRewrite(ev["in"], <<"prod", a, IF ev.f = "constfactor" THEN b ELSE <<"pow", b, <<"rat", -1, 1>>>>>>, ev.f)
    ELSE LET r == JudgeRewrite(ev["in"], ev.out, ev.f) IN
         IF Fails(r) \/ ev.f # "simplify" THEN r
         ELSE IF ~HasFn(ev["in"], Trigs) /\ ev.out # ev["in"]
                 /\ Len(SelectSeq(Nodes(ev.out), LAMBDA u : u[1] = "sym")) >= Len(SelectSeq(Nodes(ev["in"]), LAMBDA u : u[1] = "sym"))
              THEN Bad("simplify-not-simpler", "")
         ELSE r

IsSinCos(u) == u[1] = "fn" /\ u[2] \in {"sin", "cos"}
\* a product or power of sines and cosines remains
SinCosFactors(t) ==
    LET fs == IF t[1] = "prod" THEN Tail(t) ELSE <<t>>
        k(u) == IF IsSinCos(u) THEN 1 ELSE IF u[1] = "pow" /\ IsSinCos(u[2]) /\ IsInt(u[3]) /\ u[3][2] > 0 THEN u[3][2] ELSE 0
    IN FoldLeft(LAMBDA acc, u : acc + k(u), 0, fs)
Summands(t) == IF t[1] = "sum" THEN Tail(t) ELSE <<t>>
C22(ev) ==
    IF ev.e # "call" THEN Skip("other operation")
    ELSE IF ev.out = <<"none">> THEN
         IF ev.f = "pts" /\ SinCosFactors(ev["in"]) >= 2 /\ ev.pure THEN Bad("pts-refused", "") ELSE Ok
    ELSE LET r == JudgeRewrite(ev["in"], ev.out, ev.f) IN
         IF Fails(r) THEN r
         ELSE IF ev.f = "pts" /\ ev.pure /\ \E i \in DOMAIN Summands(ev.out) : SinCosFactors(Summands(ev.out)[i]) >= 2 THEN Bad("pts-products-left", "")
         ELSE r
=============================================================================
