------------------------------ MODULE JobBase ------------------------------
(* Helpers to enumerate families of jobs. *)
EXTENDS Gen, TLC

\* mixed radix decoding of an index: Radix(i, <<r1, r2, ...>>) is the sequence of digits (+1)
RECURSIVE Radix(_, _)
Radix(i, rs) == IF rs = <<>> THEN <<>> ELSE <<(i % Head(rs)) + 1>> \o Radix(i \div Head(rs), Tail(rs))
RECURSIVE ProdOf(_)
ProdOf(rs) == IF rs = <<>> THEN 1 ELSE Head(rs) * ProdOf(Tail(rs))

\* A family is <<radices, maker>>; families are concatenated: which family and which index in it
RECURSIVE Locate(_, _, _)
Locate(i, sizes, k) == IF i < sizes[k] THEN <<k, i>> ELSE Locate(i - sizes[k], sizes, k + 1)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
\* the number of members of a list of families, given by their radices
FamSize(fam) == SumOf([k \in DOMAIN fam |-> ProdOf(fam[k])])
\* <<family, digits>> of the i-th member
FamAt(fam, i) == LET f == Locate(i, [k \in DOMAIN fam |-> ProdOf(fam[k])], 1) IN <<f[1], Radix(f[2], fam[f[1]])>>
=============================================================================
