------------------------------- MODULE Sample -------------------------------
(***************************************************************************)
(* The assignments at which values are compared: every symbol takes P      *)
(* rational values of different magnitude and sign; in the first NPos      *)
(* points all symbols are positive.                                        *)
(***************************************************************************)
EXTENDS Semantics, TLC

Mags == << <<37, 100>>, <<81, 100>>, <<163, 100>>, <<29, 10>>, <<53, 10>>, <<13, 100>>, <<7, 3>>, <<97, 10>>, <<61, 100>>,
           <<19, 17>>, <<41, 9>>, <<3, 100>>, <<23, 7>>, <<127, 100>> >>
P == 14
NPos == 8
Names == <<"x", "y", "z", "a", "b", "c", "t", "u", "k", "n", "m", "w", "v", "theta", "alpha", "xx", "x_1", "x_2", "x1", "ab", "beta", "X", "Y", "T", "xy", "sinx", "q", "p">>
\* sign of symbol j at point i
Neg(j, i) == i > NPos /\ (IF i % 2 = 1 THEN TRUE ELSE ((i + j) \div 2) % 2 = 0)
Pt(j, i) == LET q == Mags[((i * 3 + j * 5) % P) + 1]
                r == <<q[1] * (10 + j), q[2] * (10 + (j % 3))>>   \* no two symbols share a value
            IN IF Neg(j, i) THEN <<0 - r[1], r[2]>> ELSE r
Env == TLCEval([s \in {Names[j] : j \in DOMAIN Names} |->
          LET j == CHOOSE j \in DOMAIN Names : Names[j] = s IN VPoints([i \in 1..P |-> Pt(j, i)])])

(***************************************************************************)
(* Comparing a result with what it should denote.                          *)
(* A verdict is a record [v |-> "ok" | "skip" | "bad", c |-> clause, d |-> detail] *)
(***************************************************************************)
Ok == [v |-> "ok", c |-> "", d |-> ""]
Skip(c) == [v |-> "skip", c |-> c, d |-> ""]
Bad(c, d) == [v |-> "bad", c |-> c, d |-> d]

IsExc(t) == t[1] = "exc"
Approx(t) == HasTag(t, {"flt"})

\* sum of a 0/1 (or status) sequence
SumSeq(s) == FoldLeft(LAMBDA acc, k : acc + k, 0, s)
CountEq(s, c) == SumSeq([i \in DOMAIN s |-> IF s[i] = c THEN 1 ELSE 0])

\* want, got: vectors; k: number of digits, 0 = exact
CompareV(want, got, k, clause) ==
    LET r == VCmp(want, got, k) IN
    IF r[2] > 0 THEN Bad(clause, "at point " \o ToString(r[3]) \o " expected " \o VShow(want, r[3]) \o " got " \o VShow(got, r[3]))
    ELSE IF r[1] = 0 /\ r[4] >= 2 THEN Bad(clause \o "-undefined", "the result has no value where the expected one has")
    ELSE IF r[1] = 0 THEN Skip("no common point")
    ELSE Ok

Digits(a, b) == IF Approx(a) \/ Approx(b) THEN 9 ELSE 0

\* a library result against a term that says what it should denote
JudgeTerm(want, got, clause) ==
    LET m == Reg(want, Env, P)
        w == VMask(Ev(want, Env, P), m)
    IN IF IsExc(got)
       THEN IF CountEq(VStatus(w), 2) >= 1 THEN Bad(clause \o "-exception", got[2] \o ": " \o got[3]) ELSE Skip("undefined")
       ELSE IF HasTag(got, {"other"}) THEN Bad(clause \o "-no-expression", "")
       ELSE CompareV(w, Ev(got, Env, P), Digits(want, got), clause)
=============================================================================
