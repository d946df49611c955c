------------------------------ MODULE Semantics ------------------------------
(***************************************************************************)
(* Denotational semantics of terms over the reals: the value of a term     *)
(* (Ev), the value and the derivative of a term (EvD, forward mode on dual *)
(* numbers), and the assignments at which a term is regular (Reg).         *)
(*                                                                         *)
(* env: symbol name -> vector (see Ball), one component per sample point.  *)
(***************************************************************************)
EXTENDS Terms, Ball

\* The functions as compositions of the primitives
VTan(u) == VDiv(VSin(u), VCos(u))
VSec(u) == VInv(VCos(u))
VCsc(u) == VInv(VSin(u))
VCot(u) == VDiv(VCos(u), VSin(u))

VFn(f, u) ==
    CASE f = "sin" -> VSin(u)
      [] f = "cos" -> VCos(u)
      [] f = "tan" -> VTan(u)
      [] f = "sec" -> VSec(u)
      [] f = "csc" -> VCsc(u)
      [] f = "cot" -> VCot(u)
      [] f = "asin" -> VAsin(u)
      [] f = "acos" -> VAcos(u)
      [] f = "atan" -> VAtan(u)

RECURSIVE Ev(_, _, _)
Ev(t, env, P) ==
    LET k == t[1] IN
    CASE k = "sym"  -> IF t[2] \in DOMAIN env THEN env[t[2]] ELSE VUnknown(P)
      [] k = "rat"  -> VRat(P, t[2], t[3])
      [] k = "sum"  -> FoldLeft(LAMBDA acc, u : VAdd(acc, Ev(u, env, P)), VRat(P, 0, 1), Tail(t))
      [] k = "prod" -> FoldLeft(LAMBDA acc, u : VMul(acc, Ev(u, env, P)), VRat(P, 1, 1), Tail(t))
      [] k = "pow"  -> IF t[2] = <<"e">> THEN VExp(Ev(t[3], env, P))
                       ELSE IF t[3][1] = "rat" THEN VPowRat(Ev(t[2], env, P), t[3][2], t[3][3])
                       ELSE VPow(Ev(t[2], env, P), Ev(t[3], env, P))
      [] k = "fn"   -> VFn(t[2], Ev(t[3], env, P))
      [] k = "log"  -> IF t[3] = <<"e">> THEN VLog(Ev(t[2], env, P))
                       ELSE VDiv(VLog(Ev(t[2], env, P)), VLog(Ev(t[3], env, P)))
      [] k = "abs"  -> VAbs(Ev(t[2], env, P))
      [] k = "pi"   -> VPi(P)
      [] k = "e"    -> VE(P)
      [] k = "big"  -> VRat(P, t[2], t[3])
      [] k = "flt"  -> VFlt(P, t[2])
      [] k \in {"inf", "ninf", "nan"} -> VUndef(P)
      [] OTHER -> VUnknown(P)

(* Derivative rules.  A dual number is <<value, derivative with respect to x>> *)
DFn(f, u) ==     \* f'(u)
    CASE f = "sin" -> VCos(u)
      [] f = "cos" -> VNeg(VSin(u))
      [] f = "tan" -> VMul(VSec(u), VSec(u))
      [] f = "sec" -> VMul(VSec(u), VTan(u))
      [] f = "csc" -> VNeg(VMul(VCsc(u), VCot(u)))
      [] f = "cot" -> VNeg(VMul(VCsc(u), VCsc(u)))
      [] f = "asin" -> VPowRat(VSub(VRat(VLen(u), 1, 1), VMul(u, u)), 0 - 1, 2)
      [] f = "acos" -> VNeg(VPowRat(VSub(VRat(VLen(u), 1, 1), VMul(u, u)), 0 - 1, 2))
      [] f = "atan" -> VInv(VAdd(VRat(VLen(u), 1, 1), VMul(u, u)))

DMul(a, b) == <<VMul(a[1], b[1]), VAdd(VMul(a[2], b[1]), VMul(a[1], b[2]))>>
DLog(a) == <<VLog(a[1]), VDiv(a[2], a[1])>>

RECURSIVE EvD(_, _, _, _)
EvD(t, env, P, x) ==
    IF x \notin SymbolsOf(t) THEN LET v == Ev(t, env, P) IN <<v, VMul(VRat(P, 0, 1), v)>>     \* 0 where t has a value
    ELSE LET k == t[1] IN
    CASE k = "sym"  -> <<env[x], VRat(P, 1, 1)>>
      [] k = "sum"  -> FoldLeft(LAMBDA acc, u : LET d == EvD(u, env, P, x) IN <<VAdd(acc[1], d[1]), VAdd(acc[2], d[2])>>,
                                <<VRat(P, 0, 1), VRat(P, 0, 1)>>, Tail(t))
      [] k = "prod" -> FoldLeft(LAMBDA acc, u : DMul(acc, EvD(u, env, P, x)), <<VRat(P, 1, 1), VRat(P, 0, 1)>>, Tail(t))
      [] k = "pow"  ->
            IF t[3][1] = "rat"
            THEN \* n u^(n-1) u'
                 LET u == EvD(t[2], env, P, x)
                     n == t[3][2]  d == t[3][3]
                 IN <<VPowRat(u[1], n, d), VMul(VMul(VRat(P, n, d), VPowRat(u[1], n - d, d)), u[2])>>
            ELSE \* u^w = exp(w ln u)
                 LET w == EvD(t[3], env, P, x)
                     l == IF t[2] = <<"e">> THEN <<VRat(P, 1, 1), VRat(P, 0, 1)>> ELSE DLog(EvD(t[2], env, P, x))
                     y == DMul(w, l)
                     v == VExp(y[1])
                 IN <<v, VMul(v, y[2])>>
      [] k = "fn"   -> LET u == EvD(t[3], env, P, x) IN <<VFn(t[2], u[1]), VMul(DFn(t[2], u[1]), u[2])>>
      [] k = "log"  ->
            LET u == DLog(EvD(t[2], env, P, x)) IN
            IF t[3] = <<"e">> THEN u
            ELSE LET b == DLog(EvD(t[3], env, P, x))
                 IN <<VDiv(u[1], b[1]),
                      VDiv(VSub(VMul(u[2], b[1]), VMul(u[1], b[2])), VMul(b[1], b[1]))>>
      [] k = "abs"  -> LET u == EvD(t[2], env, P, x) IN <<VAbs(u[1]), VMul(VSign(u[1]), u[2])>>
      [] OTHER -> <<VUnknown(P), VUnknown(P)>>

(***************************************************************************)
(* Regular assignments.  simpy's power laws (x^a)^b = x^(ab),              *)
(* (xy)^a = x^a y^a are identities of the reals only where the bases of    *)
(* non-integer powers are positive, so a term is *regular* at a point iff  *)
(* every factor of every base that is raised to a non-integer power is     *)
(* positive there.                                                         *)
(***************************************************************************)
\* b as the base of the non-integer exponent w
RECURSIVE PosBase(_, _, _, _)
PosBase(b, w, env, P) ==
    CASE b[1] = "prod" -> FoldLeft(LAMBDA m, u : MAnd(m, PosBase(u, w, env, P)), MOnes(P), Tail(b))
      [] b[1] = "pow" /\ b[2] # <<"e">> ->
            IF b[3][1] = "rat" /\ b[3][3] = 1 /\ b[3][2] % 2 = 0 /\ w[1] = "rat"
               /\ (b[3][2] * w[2] = w[3] \/ ((b[3][2] * w[2]) % w[3] = 0 /\ ((b[3][2] * w[2]) \div w[3]) % 2 = 0))
            THEN VNonzeroMask(Ev(b[2], env, P))      \* (u^2)^(1/2) = |u|, (u^4)^(1/2) = u^2
            ELSE PosBase(b[2], w, env, P)
      [] OTHER -> VPosMask(Ev(b, env, P))

IsFracPow(t) == t[1] = "pow" /\ t[2] # <<"e">> /\ ~(t[3][1] = "rat" /\ t[3][3] = 1) /\ t[3][1] # "big"

\* asin(sin u) = u etc. on the principal branch only
PrincipalMask(f, u, P) ==
    CASE f = "asin" -> VWithinMask(u, VDiv(VPi(P), VRat(P, 0 - 2, 1)), VDiv(VPi(P), VRat(P, 2, 1)))
      [] f = "acos" -> VWithinMask(u, VRat(P, 0, 1), VPi(P))
      [] f = "atan" -> VWithinMask(u, VDiv(VPi(P), VRat(P, 0 - 2, 1)), VDiv(VPi(P), VRat(P, 2, 1)))

RECURSIVE Reg(_, _, _)
Reg(t, env, P) ==
    IF ~HasTag(t, {"pow", "fn"}) THEN MOnes(P)
    ELSE LET ks == Kids(t)
             sub == FoldLeft(LAMBDA m, u : MAnd(m, Reg(u, env, P)), MOnes(P), ks)
         IN IF IsFracPow(t) THEN MAnd(sub, PosBase(t[2], t[3], env, P))
            ELSE IF t[1] = "fn" /\ t[2] \in {"asin", "acos", "atan"} /\ t[3][1] = "fn" /\ t[3][2] \notin {"asin", "acos", "atan"}
            THEN MAnd(sub, PrincipalMask(t[2], Ev(t[3][3], env, P), P))
            ELSE sub

EvReg(t, env, P) == VMask(Ev(t, env, P), Reg(t, env, P))

(* Where all trigonometric functions inside bases of non-integer powers are positive: (1 - sin^2)^(3/2) is
   simplified to cos^3 by the library.  Nowhere when an inverse function is applied to a compound of trigonometric
   functions, such as atan(1/tan x): simplifying the argument leads to the known finding about atan(cot x) (C03). *)
InverseTrig(f) == f \in {"asin", "acos", "atan"}
CompoundInverse(t) == t[1] = "fn" /\ InverseTrig(t[2]) /\ t[3][1] # "fn" /\ (\E u \in Subterms(t[3]) : u[1] = "fn" /\ ~InverseTrig(u[2]))
TrigArgs(t) == {u[3] : u \in {v \in Subterms(t) : v[1] = "fn" /\ v[2] \notin {"asin", "acos", "atan"}}}
TrigReg(t, env, P) ==
    LET bases == {v[2] : v \in {w \in Subterms(t) : IsFracPow(w)}}
        args == UNION {TrigArgs(b) : b \in bases}
    IN IF \E u \in Subterms(t) : CompoundInverse(u) THEN VPosMask(VRat(P, 0, 1)) ELSE
       FoldLeft(LAMBDA m, u : MAnd(m, LET x == Ev(u, env, P) IN MAnd(VPosMask(VSin(x)), VPosMask(VCos(x)))), MOnes(P), SetToSeq(args))
==============================================================================
