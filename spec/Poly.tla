-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Exact arithmetic on (Laurent) polynomials with rational coefficients.   *)
(*                                                                         *)
(* A rational is <<n, d>>: decimal strings, lowest terms, d > 0.           *)
(* The indeterminates are the atoms of a term: symbols, and functions      *)
(* applied to symbols.  A monomial is a set of pairs <<atom, exponent>>    *)
(* with nonzero exponents, a polynomial a function from monomials to       *)
(* nonzero coefficients.                                                   *)
(***************************************************************************)
EXTENDS Terms, BigNum, TLC

QMake(n, d) ==
    LET g == BGcd(n, d)
        s == IF BSgn(d) < 0 THEN BNeg(g) ELSE g
    IN IF BSgn(n) = 0 THEN <<"0", "1">> ELSE <<BDivFloor(n, s), BDivFloor(d, s)>>
QInt(n) == <<BStr(n), "1">>
QZero == <<"0", "1">>
QOne == <<"1", "1">>
QAdd(a, b) == QMake(BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
QMul(a, b) == QMake(BMul(a[1], b[1]), BMul(a[2], b[2]))
QNeg(a) == <<BNeg(a[1]), a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QInv(a) == QMake(a[2], a[1])
QDiv(a, b) == QMul(a, QInv(b))
QSgn(a) == BSgn(a[1])
QIsInt(a) == a[2] = "1"
QPow(a, n) == IF n >= 0 THEN QMake(BPow(a[1], n), BPow(a[2], n)) ELSE QInv(QMake(BPow(a[1], 0 - n), BPow(a[2], 0 - n)))
\* the rational that a leaf denotes
IsQ(t) == t[1] \in {"rat", "big"}
QOf(t) == <<BStr(t[2]), BStr(t[3])>>

POne == [m \in {{}} |-> QOne]
PZero == [m \in {} |-> QZero]
PConst(q) == IF QSgn(q) = 0 THEN PZero ELSE [m \in {{}} |-> q]
PAtom(a, q) == IF QSgn(q) = 0 THEN POne ELSE [m \in {{<<a, q>>}} |-> QOne]
PNorm(p) == [m \in {k \in DOMAIN p : QSgn(p[k]) # 0} |-> p[m]]
PAdd(p, q) ==
    PNorm([m \in DOMAIN p \cup DOMAIN q |->
              IF m \in DOMAIN p /\ m \in DOMAIN q THEN QAdd(p[m], q[m]) ELSE IF m \in DOMAIN p THEN p[m] ELSE q[m]])
\* exponent of atom a in monomial m
MExp(m, a) == IF \E e \in m : e[1] = a THEN (CHOOSE e \in m : e[1] = a)[2] ELSE QZero
MMul(m, n) ==
    LET as == {e[1] : e \in m} \cup {e[1] : e \in n}
    IN {e \in {<<a, QAdd(MExp(m, a), MExp(n, a))>> : a \in as} : QSgn(e[2]) # 0}
PTimesMono(p, m, c) == [k \in {MMul(m, j) : j \in DOMAIN p} |-> QMul(c, p[CHOOSE j \in DOMAIN p : MMul(m, j) = k])]
PMul(p, q) == FoldLeft(LAMBDA acc, m : PAdd(acc, PTimesMono(q, m, p[m])), PZero, SetToSeq(DOMAIN p))
RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN POne ELSE IF n = 1 THEN p
              ELSE LET h == PPow(p, n \div 2)  hh == PMul(h, h) IN IF n % 2 = 1 THEN PMul(hh, p) ELSE hh
\* (c x^a y^b)^q
MPow(m, q) == {<<e[1], QMul(e[2], q)>> : e \in m}

(* the polynomial that a term denotes, <<>> if it is not of the supported kind *)
IsAtomTerm(t) == t[1] = "sym" \/ (t[1] = "fn" /\ t[3][1] = "sym") \/ (t[1] = "log" /\ t[2][1] = "sym" /\ t[3] = <<"e">>) \/ t[1] \in {"pi", "e"}
RECURSIVE ToPoly(_)
ToPoly(t) ==
    IF IsQ(t) THEN <<PConst(QOf(t))>>
    ELSE IF IsAtomTerm(t) THEN <<PAtom(t, QOne)>>
    ELSE IF t[1] \in {"sum", "prod"} THEN
        FoldLeft(LAMBDA acc, u : IF acc = <<>> THEN <<>>
                                 ELSE LET q == ToPoly(u) IN
                                      IF q = <<>> THEN <<>>
                                      ELSE <<IF t[1] = "sum" THEN PAdd(acc[1], q[1]) ELSE PMul(acc[1], q[1])>>,
                 <<IF t[1] = "sum" THEN PZero ELSE POne>>, Tail(t))
    ELSE IF t[1] = "pow" /\ t[3][1] = "rat" THEN
        LET b == ToPoly(t[2])
            q == QOf(t[3])
        IN IF b = <<>> THEN <<>>
           ELSE IF t[3][3] = 1 /\ t[3][2] >= 0 /\ Cardinality(DOMAIN b[1]) # 1 THEN IF t[3][2] > 12 THEN <<>> ELSE <<PPow(b[1], t[3][2])>>
           ELSE IF Cardinality(DOMAIN b[1]) = 1 THEN
                LET m == CHOOSE m \in DOMAIN b[1] : TRUE IN
                IF b[1][m] = QOne \/ t[3][3] = 1 THEN <<[k \in {MPow(m, q)} |-> IF b[1][m] = QOne THEN QOne ELSE QPow(b[1][m], t[3][2])]>> ELSE <<>>
           ELSE <<>>
    ELSE <<>>

\* no sum below the top level
RECURSIVE NoSums(_)
NoSums(t) == t[1] # "sum" /\ LET ks == Kids(t) IN \A i \in DOMAIN ks : NoSums(ks[i])
Distributed(t) == IF t[1] = "sum" THEN \A i \in 2..Len(t) : NoSums(t[i]) ELSE NoSums(t)

\* the shape of the one normal form: a monomial, or a sum of at least two of them, each once
MonoShape(t) ==
    IsQ(t) \/ IsAtomTerm(t) \/ (t[1] = "pow" /\ IsAtomTerm(t[2]) /\ IsQ(t[3]) /\ QOf(t[3]) \notin {QZero, QOne})
    \/ (t[1] = "prod" /\ Len(t) >= 3
        /\ LET at == {i \in 2..Len(t) : IsAtomTerm(t[i]) \/ (t[i][1] = "pow" /\ IsAtomTerm(t[i][2]) /\ IsQ(t[i][3]) /\ QOf(t[i][3]) \notin {QZero, QOne})}
               nm == {i \in 2..Len(t) : IsQ(t[i])}
           IN at \cup nm = 2..Len(t) /\ Cardinality(nm) <= 1 /\ (\A i \in nm : QOf(t[i]) \notin {QZero, QOne})
              /\ Cardinality({IF t[i][1] = "pow" THEN t[i][2] ELSE t[i] : i \in at}) = Cardinality(at))
NormalShape(t) ==
    IF t[1] = "sum" THEN Len(t) >= 3 /\ (\A i \in 2..Len(t) : MonoShape(t[i]) /\ t[i] # <<"rat", 0, 1>>)
                         /\ Cardinality({DOMAIN ToPoly(t[i])[1] : i \in 2..Len(t)}) = Len(t) - 1
    ELSE MonoShape(t)
=============================================================================
