------------------------------- MODULE JArith -------------------------------
(* C01, C03, C18: what the constructors denote. *)
EXTENDS Sample

Minus1 == <<"rat", 0 - 1, 1>>
Half == <<"rat", 1, 2>>
R(n) == <<"rat", n, 1>>

ArithOps == {"add", "sub", "mul", "div", "pow", "neg", "sqrt", "sum", "prod"}
Inverses == {"asin", "acos", "atan"}
Trigs == {"sin", "cos", "tan", "sec", "csc", "cot"}
FnOps == Trigs \cup Inverses \cup {"log", "abs"}

\* the term that an operation on operands denotes
SpecTerm(op, a) ==
    CASE op = "add"  -> <<"sum", a[1], a[2]>>
      [] op = "sub"  -> <<"sum", a[1], <<"prod", Minus1, a[2]>>>>
      [] op = "mul"  -> <<"prod", a[1], a[2]>>
      [] op = "div"  -> <<"prod", a[1], <<"pow", a[2], Minus1>>>>
      [] op = "pow"  -> <<"pow", a[1], a[2]>>
      [] op = "neg"  -> <<"prod", Minus1, a[1]>>
      [] op = "sqrt" -> <<"pow", a[1], Half>>
      [] op = "sum"  -> <<"sum">> \o a
      [] op = "prod" -> <<"prod">> \o a
      [] op = "log"  -> <<"log", a[1], IF Len(a) = 1 THEN <<"e">> ELSE a[2]>>
      [] op = "abs"  -> <<"abs", a[1]>>
      [] OTHER       -> <<"fn", op, a[1]>>

Inexact(t) == HasTag(t, {"flt", "nan"})

JudgeOp(ev) ==
    LET want == SpecTerm(ev.op, ev["in"])
        r == JudgeTerm(want, ev.out, "value")
    IN IF r.v = "ok" /\ ~Inexact(want) /\ Inexact(ev.out) THEN Bad("exact-became-float", "") ELSE r

\* a probe: judged at all points where the term is defined, regular or not
JudgeStrict(ev) ==
    LET want == SpecTerm(ev.op, ev["in"]) IN
    IF IsExc(ev.out) THEN JudgeTerm(want, ev.out, "value")
    ELSE CompareV(Ev(want, Env, P), Ev(ev.out, Env, P), Digits(want, ev.out), "value-irregular")

C01(ev) ==
    CASE ev.e = "op" /\ ev.op \in ArithOps -> JudgeOp(ev)
      [] ev.e = "strict" -> JudgeStrict(ev)
      [] OTHER -> Skip("other operation")

----------------------------------------------------------------------------
(* C03 *)
\* q with t = q*pi for a rational q, as <<n, d>>; <<>> if there is none
PiMultiple(t) ==
    CASE t = <<"pi">> -> <<1, 1>>
      [] t = R(0) -> <<0, 1>>
      [] t[1] = "prod" /\ Len(t) = 3 /\ t[2][1] = "rat" /\ t[3] = <<"pi">> -> <<t[2][2], t[2][3]>>
      [] t[1] = "prod" /\ Len(t) = 3 /\ t[3][1] = "rat" /\ t[2] = <<"pi">> -> <<t[3][2], t[3][3]>>
      [] OTHER -> <<>>
Special(op, a) == op \in Trigs /\ LET q == PiMultiple(a[1]) IN q # <<>> /\ q[2] \in {1, 2, 3, 4, 6}

Reciprocal(f, g) == <<f, g>> \in {<<"asin", "csc">>, <<"acos", "sec">>, <<"atan", "cot">>}

C03(ev) ==
    IF ev.e = "strict" THEN JudgeStrict(ev)
    ELSE IF ev.e # "op" \/ ~(ev.op \in FnOps \/ (ev.op = "pow" /\ HasTag(ev["in"][2], {"log"}))) THEN Skip("other operation")
    ELSE LET r == JudgeOp(ev)
             a == ev["in"][1]
         IN IF r.v = "bad" /\ a[1] = "fn" /\ Reciprocal(ev.op, a[2]) /\ ~IsExc(ev.out)
               /\ CompareV(VInv(Ev(a[3], Env, P)), Ev(ev.out, Env, P), Digits(a, ev.out), "").v = "ok"
            THEN Skip("atan(cot u) etc.: known finding, strict probes")
            ELSE IF r.v = "ok" /\ Special(ev.op, ev["in"]) /\ HasTag(ev.out, {"fn"})
            THEN Bad("special-angle-not-evaluated", "")
            ELSE r
=============================================================================
