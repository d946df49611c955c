------------------------------- MODULE BigNum -------------------------------
(* Exact integers of any size as decimal strings (TLC's integers have 32 bits).
   Arguments may be TLC integers or decimal strings; results are decimal strings.
   Evaluated by java/src/Ball.java. *)
LOCAL None == CHOOSE x \in {} : TRUE
BAdd(a, b) == None
BMul(a, b) == None
BNeg(a) == None
BDivFloor(a, b) == None
BGcd(a, b) == None
BSgn(a) == None      \* an Int: -1, 0, 1
BStr(a) == None      \* decimal string
BPow(a, n) == None
BRoot(a, k) == None  \* the exact k-th root, "" if it is not an integer
BFltN(s) == None     \* numerator and denominator of the double whose repr is s
BFltD(s) == None
=============================================================================
