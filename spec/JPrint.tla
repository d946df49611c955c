------------------------------- MODULE JPrint -------------------------------
(***************************************************************************)
(* C19, C20: what a printed form denotes.                                  *)
(*                                                                         *)
(* A printed form arrives as a sequence of characters.  The readers are    *)
(* recursive descent over these grammars (blanks are ignored; on failure   *)
(* the position is 0):                                                     *)
(*   Sum    = ["-"] Term { ("+" | "-") Term }                              *)
(*   Term   = Factor { op Factor }      op: * /   or, in LaTeX, \cdot and  *)
(*                                      juxtaposition; left associative    *)
(*   Factor = "-" Factor | Base [ "^" Exponent ]                           *)
(*   repr:  Exponent = Factor (so ^ associates to the right)               *)
(*          Base = number | name | function "(" Sum ")" | "(" Sum ")"      *)
(*               | "|" Sum "|"                                             *)
(*   LaTeX: Exponent = Arg, once        Arg = one token | "{" Sum "}"      *)
(*          Base = number | name | \pi | \infty | \frac Arg Arg            *)
(*               | \sqrt Arg | function Base | delimited Sum               *)
(***************************************************************************)
EXTENDS JCalc

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in Digit |-> CHOOSE n \in 0..9 : ToString(n) = c]
Letter == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
           "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
NameChar == Letter \cup Digit \cup {"_"}
BSl == "\\"

At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE ""
RECURSIVE Sk(_, _)
Sk(s, i) == IF At(s, i) = " " THEN Sk(s, i + 1) ELSE i
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, S) == IF At(s, i) \in S THEN RunEnd(s, i + 1, S) ELSE i
Txt(s, i, j) == FoldLeft(LAMBDA acc, c : acc \o c, "", SubSeq(s, i, j - 1))

Failed == <<<<"fail">>, 0>>
Ko(r) == r[2] = 0

\* literals are folded, so that -2 and 2/3 are numbers
IntLit(t) == t[1] = "rat" /\ t[3] = 1
Minus(t) == IF t[1] = "rat" THEN <<"rat", 0 - t[2], t[3]>> ELSE <<"prod", Minus1, t>>
Over(a, b) == IF IntLit(a) /\ IntLit(b) /\ b[2] > 0 THEN <<"rat", a[2], b[2]>> ELSE <<"prod", a, <<"pow", b, Minus1>>>>
SumT(a, b) == IF a[1] = "sum" THEN Append(a, b) ELSE <<"sum", a, b>>

\* a number at i
Num(s, i) ==
    LET j == RunEnd(s, i, Digit)
        frac == At(s, j) = "." /\ At(s, j + 1) \in Digit
        k == IF frac THEN RunEnd(s, j + 1, Digit) ELSE j
        expo == At(s, k) = "e" /\ (At(s, k + 1) \in Digit \/ (At(s, k + 1) \in {"+", "-"} /\ At(s, k + 2) \in Digit))
        l == IF expo THEN RunEnd(s, k + 2, Digit) ELSE k
    IN IF frac \/ expo THEN <<<<"flt", Txt(s, i, l)>>, l>>
       ELSE IF j - i <= 9 THEN <<<<"rat", FoldLeft(LAMBDA acc, c : 10 * acc + DigitVal[c], 0, SubSeq(s, i, j - 1)), 1>>, j>>
       ELSE <<<<"big", Txt(s, i, j), "1">>, j>>
FnNames == Trigs \cup Inverses
ApplyNamed(n, t) ==
    CASE n \in FnNames -> <<"fn", n, t>>
      [] n = "sqrt" -> <<"pow", t, Half>>
      [] n = "ln" -> <<"log", t, <<"e">>>>
      [] n = "abs" -> <<"abs", t>>
      [] OTHER -> <<"fail">>
NameT(n) == CASE n = "pi" -> <<"pi">> [] n = "e" -> <<"e">> [] n = "inf" -> <<"inf">> [] OTHER -> <<"sym", n>>

RECURSIVE RSum(_, _, _), RSumRest(_, _, _, _), RTerm(_, _, _), RTermRest(_, _, _, _), RFactor(_, _, _), RBase(_, _), LBase(_, _), LArg(_, _), LDelim(_, _, _)
\* lang: "repr" or "latex"
RSum(lang, s, i) ==
    LET t == RTerm(lang, s, i) IN IF Ko(t) THEN Failed ELSE RSumRest(lang, s, t[1], t[2])
RSumRest(lang, s, acc, i) ==
    LET j == Sk(s, i) IN
    IF At(s, j) \in {"+", "-"}
    THEN LET t == RTerm(lang, s, j + 1) IN
         IF Ko(t) THEN Failed ELSE RSumRest(lang, s, SumT(acc, IF At(s, j) = "-" THEN Minus(t[1]) ELSE t[1]), t[2])
    ELSE <<acc, i>>
\* a minus sign in front of a term belongs to the whole term
RTerm(lang, s, i) ==
    LET j == Sk(s, i)
        neg == At(s, j) = "-"
        f == RFactor(lang, s, IF neg THEN j + 1 ELSE j)
    IN IF Ko(f) THEN Failed
       ELSE LET t == RTermRest(lang, s, f[1], f[2]) IN IF Ko(t) \/ ~neg THEN t ELSE <<Minus(t[1]), t[2]>>
RTermRest(lang, s, acc, i) ==
    LET j == Sk(s, i)
        c == At(s, j)
        dot == lang = "latex" /\ c = BSl /\ Txt(s, j + 1, RunEnd(s, j + 1, Letter)) \in {"cdot", "times"}
        close == lang = "latex" /\ c = BSl /\ Txt(s, j + 1, RunEnd(s, j + 1, Letter)) = "right"
    IN IF c \in {"*", "/"} \/ dot
       THEN LET f == RFactor(lang, s, IF dot THEN RunEnd(s, j + 1, Letter) ELSE j + 1) IN
            IF Ko(f) THEN Failed ELSE RTermRest(lang, s, IF c = "/" THEN Over(acc, f[1]) ELSE <<"prod", acc, f[1]>>, f[2])
       ELSE IF lang = "latex" /\ ~close /\ c \in NameChar \cup {"(", "{", BSl}
       THEN LET f == RFactor(lang, s, j) IN IF Ko(f) THEN Failed ELSE RTermRest(lang, s, <<"prod", acc, f[1]>>, f[2])
       ELSE <<acc, i>>
RFactor(lang, s, i) ==
    LET j == Sk(s, i) IN
    IF At(s, j) = "-" THEN LET f == RFactor(lang, s, j + 1) IN IF Ko(f) THEN Failed ELSE <<Minus(f[1]), f[2]>>
    ELSE LET b == IF lang = "repr" THEN RBase(s, j) ELSE LBase(s, j) IN
         IF Ko(b) THEN Failed
         ELSE LET k == Sk(s, b[2]) IN
              IF At(s, k) # "^" THEN b
              ELSE LET x == IF lang = "repr" THEN RFactor(lang, s, k + 1) ELSE LArg(s, k + 1) IN
                   IF Ko(x) THEN Failed
                   ELSE IF lang = "latex" /\ At(s, Sk(s, x[2])) = "^" THEN Failed
                   ELSE <<<<"pow", b[1], x[1]>>, x[2]>>
\* "open Sum close", i just behind the opening one
Closed(lang, s, i, c) ==
    LET t == RSum(lang, s, i) IN
    IF Ko(t) THEN Failed ELSE LET j == Sk(s, t[2]) IN IF At(s, j) = c THEN <<t[1], j + 1>> ELSE Failed
Named(n, r) == IF Ko(r) THEN Failed ELSE LET t == ApplyNamed(n, r[1]) IN IF t = <<"fail">> THEN Failed ELSE <<t, r[2]>>
LogT(r, b) == IF Ko(r) THEN Failed ELSE <<<<"log", r[1], b>>, r[2]>>
RBase(s, i) ==
    LET c == At(s, i) IN
    CASE c \in Digit -> Num(s, i)
      [] c = "(" -> Closed("repr", s, i + 1, ")")
      [] c = "|" -> LET r == Closed("repr", s, i + 1, "|") IN IF Ko(r) THEN Failed ELSE <<<<"abs", r[1]>>, r[2]>>
      [] c \in Letter \cup {"_"} ->
           (LET j == RunEnd(s, i, NameChar)  n == Txt(s, i, j) IN
            IF n = "log" /\ At(s, j) = "["        \* log[base=b](u)
            THEN LET k == RunEnd(s, j + 1, Letter) IN
                 IF Txt(s, j + 1, k) # "base" \/ At(s, k) # "=" THEN Failed
                 ELSE LET b == Closed("repr", s, k + 1, "]") IN
                      IF Ko(b) \/ At(s, b[2]) # "(" THEN Failed ELSE LogT(Closed("repr", s, b[2] + 1, ")"), b[1])
            ELSE IF n = "log" /\ At(s, j) = "-"     \* log-2(u)
            THEN LET k == RunEnd(s, j + 1, Digit) IN IF k = j + 1 \/ At(s, k) # "(" THEN <<NameT(n), j>> ELSE LogT(Closed("repr", s, k + 1, ")"), Minus(Num(s, j + 1)[1]))
            ELSE IF At(s, j) # "(" THEN <<NameT(n), j>>
            ELSE IF j - i > 3 /\ Txt(s, i, i + 3) = "log" /\ RunEnd(s, i + 3, Digit) = j
            THEN LogT(Closed("repr", s, j + 1, ")"), Num(s, i + 3)[1])
            ELSE Named(n, Closed("repr", s, j + 1, ")")))
      [] OTHER -> Failed
\* a delimited sum behind \left at i, or an undelimited one
LDelim(s, i, sized) ==
    LET c == At(s, i) IN
    IF c \notin {"(", "|", "["} THEN Failed
    ELSE LET t == RSum("latex", s, i + 1) IN
         IF Ko(t) THEN Failed
         ELSE LET j == Sk(s, t[2])
                  k == IF sized THEN RunEnd(s, j + 1, Letter) ELSE j
                  want == CASE c = "(" -> ")" [] c = "[" -> "]" [] OTHER -> "|"
                  m == IF sized THEN Sk(s, k) ELSE j
              IN IF (sized => At(s, j) = BSl /\ Txt(s, j + 1, k) = "right") /\ At(s, m) = want
                 THEN <<IF c = "|" THEN <<"abs", t[1]>> ELSE t[1], m + 1>> ELSE Failed
LArg(s, i) ==
    LET j == Sk(s, i)  c == At(s, j) IN
    CASE c = "{" -> Closed("latex", s, j + 1, "}")
      [] c \in Digit -> <<<<"rat", DigitVal[c], 1>>, j + 1>>
      [] c \in Letter -> <<NameT(c), j + 1>>
      [] c = BSl -> (LET k == RunEnd(s, j + 1, Letter) IN IF Txt(s, j + 1, k) = "pi" THEN <<<<"pi">>, k>> ELSE IF Txt(s, j + 1, k) = "infty" THEN <<<<"inf">>, k>> ELSE Failed)
      [] OTHER -> Failed
LBase(s, i) ==
    LET c == At(s, i) IN
    CASE c \in Digit -> Num(s, i)
      [] c \in Letter -> (LET j == RunEnd(s, i, NameChar) IN <<NameT(Txt(s, i, j)), j>>)
      [] c = "{" -> Closed("latex", s, i + 1, "}")
      [] c \in {"(", "|"} -> LDelim(s, i, FALSE)
      [] c = BSl ->
           (LET j == RunEnd(s, i + 1, Letter)  n == Txt(s, i + 1, j)  k == Sk(s, j) IN
            CASE n = "pi" -> <<<<"pi">>, j>>
              [] n = "infty" -> <<<<"inf">>, j>>
              [] n = "left" -> LDelim(s, k, TRUE)
              [] n = "frac" -> (LET a == LArg(s, j) IN IF Ko(a) THEN Failed ELSE LET b == LArg(s, a[2]) IN IF Ko(b) THEN Failed ELSE <<Over(a[1], b[1]), b[2]>>)
              [] n = "sqrt" -> Named("sqrt", LArg(s, j))
              [] n = "text" /\ At(s, k) = "{" ->
                   (LET m == RunEnd(s, k + 1, Letter) IN
                    IF At(s, m) # "}" THEN Failed ELSE Named(Txt(s, k + 1, m), LBase(s, Sk(s, m + 1))))
              [] n = "ln" -> Named("ln", LBase(s, k))
              [] n \in Trigs /\ At(s, k) = "^" ->          \* \sin^{-1} is the inverse function, \sin^2 the square
                   (LET x == LArg(s, k + 1) IN
                    IF Ko(x) THEN Failed
                    ELSE LET inv == x[1] = Minus1 /\ n \in {"sin", "cos", "tan"}
                             r == Named(IF inv THEN "a" \o n ELSE n, LBase(s, Sk(s, x[2])))
                         IN IF Ko(r) \/ inv THEN r ELSE <<<<"pow", r[1], x[1]>>, r[2]>>)
              [] n \in Trigs -> Named(n, LBase(s, k))
              [] n \in {"arcsin", "arccos", "arctan"} -> Named(CASE n = "arcsin" -> "asin" [] n = "arccos" -> "acos" [] OTHER -> "atan", LBase(s, k))
              [] n = "log" /\ At(s, k) = "_" -> (LET b == LArg(s, k + 1) IN IF Ko(b) THEN Failed ELSE LogT(LBase(s, Sk(s, b[2])), b[1]))
              [] OTHER -> Failed)
      [] OTHER -> Failed
Read(lang, s) == LET r == RSum(lang, s, 1) IN IF Ko(r) \/ Sk(s, r[2]) # Len(s) + 1 THEN <<"fail">> ELSE r[1]

\* floats in the notation 1e-07 have no LaTeX form of their own
ExpNotation(t) == \E u \in Subterms(t) : u[1] = "flt" /\ RunEnd(TLCEval([i \in 1..Len(u[2]) |-> SubSeq(u[2], i, i)]), 1, Digit \cup {".", "-"}) <= Len(u[2])
(* Where an expression has no real value (a power of a negative number, say), the reading is compared under another meaning of
   powers, logarithms and inverse functions, which is defined for all numbers: brackets matter in it as they do in the usual one. *)
RECURSIVE Total(_)
Positive(u) == <<"sum", <<"prod", <<"rat", 2, 1>>, <<"pow", u, <<"rat", 2, 1>>>>>>, u, <<"rat", 5, 1>>>>
LogP(u) == <<"log", Positive(u), <<"e">>>>
Total(t) ==
    LET ks == Kids(t)  w == [i \in DOMAIN ks |-> Total(ks[i])] IN
    CASE t[1] = "pow" /\ ~(IntLit(t[3]) \/ t[3][1] = "big" \/ t[2] = <<"e">>) -> <<"pow", <<"e">>, <<"prod", w[2], LogP(w[1])>>>>
      [] t[1] = "log" -> <<"prod", LogP(w[1]), <<"pow", LogP(w[2]), Minus1>>>>
      [] t[1] = "fn" /\ t[2] = "asin" -> <<"fn", "atan", <<"sum", <<"prod", <<"rat", 2, 1>>, w[1]>>, <<"rat", 1, 1>>>>>>
      [] t[1] = "fn" /\ t[2] = "acos" -> <<"prod", <<"rat", 3, 1>>, <<"fn", "atan", <<"sum", <<"prod", <<"rat", 5, 1>>, w[1]>>, Minus1>>>>>>
      [] OTHER -> IF ks = <<>> THEN t ELSE WithKids(t, w)
\* minus signs of a product may go into a power of a negative number: -(-1)^x is (-1)^(x + 1) where it has a value
NegPower(t) == t[1] = "pow" /\ t[2][1] \in {"rat", "big", "flt"} /\ VPosMask(Ev(t[2], Env, P))[1] = 0
MovesSigns(t) == \E u \in Subterms(t) : u[1] = "prod" /\ \E i \in 2..Len(u) : NegPower(u[i]) /\ \E j \in 2..Len(u) : j # i /\ (NumPower(u[j]) \/ u[j][1] \in {"rat", "big", "flt"})
JudgePrint(lang, ev) ==
    LET t == ev["in"] IN
    IF HasInf(t) \/ HasTag(t, {"other", "any"}) THEN Skip("infinite or not an expression")
    ELSE IF lang = "latex" /\ ExpNotation(t) THEN Skip("float in exponent notation")
    ELSE IF IsExc(ev.out) THEN Bad("print-exception", ev.out[2] \o ": " \o ev.out[3])
    ELSE LET r == TLCEval(Read(lang, Tail(ev.out))) IN
         IF r = <<"fail">> THEN Bad("print-unreadable", ev.text)
         ELSE IF SymbolsOf(r) # SymbolsOf(t) THEN Bad("print-symbols", ev.text)
         ELSE LET j == JudgeTerm(t, r, "print-value")
                  k == IF j.v = "skip" /\ j.c = "no common point" /\ ~MovesSigns(t) THEN CompareV(Ev(Total(t), Env, P), Ev(Total(r), Env, P), Digits(t, r), "print-value") ELSE j
              IN IF k.v = "bad" THEN Bad("print-value", ev.text) ELSE k
C1920(lang, ev) == IF ev.e # "print" \/ ev.f # lang THEN Skip("other operation") ELSE JudgePrint(lang, ev)
=============================================================================
