-------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* The algebra of expression trees, as observed from outside the library.  *)
(*                                                                         *)
(*   <<"rat", n, d>>  a rational (lowest terms)   <<"big", "n", "d">> same *)
(*   <<"flt", "0.5">> <<"pi">> <<"e">> <<"inf">> <<"ninf">> <<"nan">>       *)
(*   <<"sym", name>>  <<"any", key>> (a wildcard of a pattern)             *)
(*   <<"sum", t1, ..., tk>>   <<"prod", t1, ..., tk>>   <<"pow", b, x>>    *)
(*   <<"log", u, base>>  <<"abs", u>>  <<"fn", f, u>>                      *)
(*        f in sin cos tan sec csc cot asin acos atan                      *)
(*   <<"other", repr>>  anything else                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Leaves == {"rat", "big", "flt", "pi", "e", "inf", "ninf", "nan", "sym", "any", "other"}
IsLeaf(t) == t[1] \in Leaves
IsRat(t) == t[1] = "rat"
IsInt(t) == t[1] = "rat" /\ t[3] = 1
IsNum(t) == t[1] \in {"rat", "big", "flt", "pi", "e", "inf", "ninf", "nan"}

(* The sub-expressions, in order *)
Kids(t) ==
    CASE t[1] \in {"sum", "prod"} -> Tail(t)
      [] t[1] \in {"pow", "log"}  -> <<t[2], t[3]>>
      [] t[1] = "abs" -> <<t[2]>>
      [] t[1] = "fn"  -> <<t[3]>>
      [] OTHER -> <<>>

(* The same node with other children *)
WithKids(t, ks) ==
    CASE t[1] \in {"sum", "prod"} -> <<t[1]>> \o ks
      [] t[1] \in {"pow", "log"}  -> <<t[1], ks[1], ks[2]>>
      [] t[1] = "abs" -> <<"abs", ks[1]>>
      [] t[1] = "fn"  -> <<"fn", t[2], ks[1]>>
      [] OTHER -> t

RECURSIVE Size(_)
Size(t) == LET ks == Kids(t) IN 1 + FoldLeft(LAMBDA acc, k : acc + Size(k), 0, ks)

RECURSIVE SymbolsOf(_)
SymbolsOf(t) ==
    IF t[1] = "sym" THEN {t[2]}
    ELSE LET ks == Kids(t) IN UNION {SymbolsOf(ks[i]) : i \in DOMAIN ks}

RECURSIVE Subterms(_)      \* a set
Subterms(t) == LET ks == Kids(t) IN {t} \cup UNION {Subterms(ks[i]) : i \in DOMAIN ks}

RECURSIVE HasTag(_, _)     \* some node whose tag is in S
HasTag(t, S) == t[1] \in S \/ LET ks == Kids(t) IN \E i \in DOMAIN ks : HasTag(ks[i], S)

RECURSIVE HasFn(_, _)      \* some function node whose name is in S
HasFn(t, S) == (t[1] = "fn" /\ t[2] \in S) \/ LET ks == Kids(t) IN \E i \in DOMAIN ks : HasFn(ks[i], S)

RECURSIVE HasSub(_, _)
HasSub(t, s) == t = s \/ LET ks == Kids(t) IN \E i \in DOMAIN ks : HasSub(ks[i], s)

(* all nodes, in preorder, with multiplicity *)
RECURSIVE Nodes(_)
Nodes(t) == LET ks == Kids(t) IN <<t>> \o FoldLeft(LAMBDA acc, k : acc \o Nodes(k), <<>>, ks)

(* simultaneous substitution of symbols, sigma: name -> term *)
RECURSIVE Subst(_, _)
Subst(t, sigma) ==
    IF t[1] = "sym" THEN IF t[2] \in DOMAIN sigma THEN sigma[t[2]] ELSE t
    ELSE LET ks == Kids(t) IN IF ks = <<>> THEN t ELSE WithKids(t, [i \in DOMAIN ks |-> Subst(ks[i], sigma)])

(* the tree with the arguments of sums and products as multisets: equal up to order.
   Children are compared after being put into a canonical bag representation. *)
RECURSIVE AC(_)
AC(t) ==
    IF t[1] \in {"sum", "prod"}
    THEN LET ks == [i \in 1..(Len(t) - 1) |-> AC(t[i + 1])]
             vals == {ks[i] : i \in DOMAIN ks}
         IN <<t[1], {<<v, Cardinality({i \in DOMAIN ks : ks[i] = v})>> : v \in vals}>>
    ELSE LET ks == Kids(t) IN IF ks = <<>> THEN t ELSE WithKids(t, [i \in DOMAIN ks |-> AC(ks[i])])

(* a product that holds numbers and powers of numbers, which are merged in an order of the library's own *)
NumPower(t) == t[1] = "pow" /\ t[2][1] \in {"rat", "big", "flt"}
MergesNumbers(t) ==
    \E u \in Subterms(t) : u[1] = "prod" /\ \E i \in 2..Len(u) : NumPower(u[i]) /\
        \E j \in 2..Len(u) : j # i /\ (NumPower(u[j]) \/ u[j][1] \in {"rat", "big", "flt"})

EqualUpToOrder(a, b) == a = b \/ AC(a) = AC(b)
==============================================================================
