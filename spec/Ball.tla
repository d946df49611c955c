-------------------------------- MODULE Ball --------------------------------
(***************************************************************************)
(* Rigorous arithmetic on real numbers, vectorised over sample points.     *)
(*                                                                         *)
(* TLC has no real numbers.  A "vector" stands for a tuple of P reals, one *)
(* per sample point; each component is an enclosure (closed interval with  *)
(* floating-point end points), or one of the special values                *)
(*   UNDEFINED  the operation has no real value for the given arguments    *)
(*   UNKNOWN    the enclosure says nothing (straddles a singularity, ...)  *)
(* Every operator below returns enclosures of the exact results, so two    *)
(* vectors with disjoint components are certainly different numbers.       *)
(* The operators are evaluated by java/src/Ball.java (a TLC operator       *)
(* override); the definitions here only give the arities and the intended  *)
(* meaning, evaluating them without the override is an error.              *)
(***************************************************************************)
LOCAL None == CHOOSE x \in {} : TRUE

VRat(P, n, d) == None          \* the constant n/d (Int or decimal string) at P points
VFlt(P, s) == None             \* the double whose repr is s
VPi(P) == None
VE(P) == None
VUnknown(P) == None
VUndef(P) == None
VPoints(qs) == None            \* <<<<n1,d1>>, ..., <<nP,dP>>>> : the i-th point is ni/di
VAdd(a, b) == None
VSub(a, b) == None
VMul(a, b) == None
VDiv(a, b) == None             \* undefined where b = 0
VNeg(a) == None
VInv(a) == None
VAbs(a) == None
VSign(a) == None               \* unknown at 0
VExp(a) == None
VLog(a) == None                \* undefined where a <= 0
VSin(a) == None
VCos(a) == None
VAsin(a) == None               \* undefined outside [-1, 1]
VAcos(a) == None
VAtan(a) == None
VPow(a, b) == None             \* a > 0 (or b an integer)
VPowRat(a, n, d) == None       \* a^(n/d), lowest terms; real odd roots of negative numbers
VLen(a) == None
VStatus(a) == None             \* per point: 0 undefined, 1 unknown, 2 defined
VPosMask(a) == None            \* per point: 1 iff certainly > 0
VNonzeroMask(a) == None
VWithinMask(a, lo, hi) == None \* per point: 1 iff certainly lo <= a <= hi
MOnes(P) == None
MAnd(m1, m2) == None
VMask(a, m) == None            \* UNKNOWN where the mask is 0
VCmp(a, b, k) == None          \* <<#both defined, #certainly different (tolerance 10^-k, 0 = exact), first such point, #only a, #only b>>
VShow(a, i) == None            \* printable i-th component
VLess(a, b, i) == None         \* 1 certainly a < b, 0 certainly a >= b, 2 unknown
\* Integrals: n cells of the interval from a_i to b_i, their midpoints, the constant vector of the i-th component,
\* and the enclosure (one component) of the integral of f from the values at the midpoints, on the cells, and of f' on the cells
VCells(a, b, i, n) == None
VMids(a, b, i, n) == None
VBcast(a, i, n) == None
VQuad(a, b, i, fmid, fcell, dcell) == None
=============================================================================
