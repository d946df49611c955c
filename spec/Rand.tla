-------------------------------- MODULE Rand --------------------------------
(***************************************************************************)
(* A pseudo-random generator inside TLA+ (Wichmann-Hill), so that the      *)
(* behaviours that the specification generates are a function of (SEED, k) *)
(* alone.  A generator state g is threaded through all generating          *)
(* operators; each of them returns <<value, g'>>.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Step(s) == <<(171 * s[1]) % 30269, (172 * s[2]) % 30307, (170 * s[3]) % 30323>>
RECURSIVE StepN(_, _)
StepN(s, n) == IF n = 0 THEN s ELSE StepN(Step(s), n - 1)

\* the k-th stream of a seed
G0(seed, k) ==
    StepN(<<1 + (((seed % 7919) * 31 + (k % 30011) * 7 + (k \div 30011)) % 30268),
            1 + (((k % 29989) * 11 + (seed % 104729) * 13 + 17) % 30306),
            1 + (((k % 20011) * 53 + (seed % 1299709) + 5) % 30322)>>, 7)

Next1(g) == Step(g)
\* a number in 0..n-1
Draw(g, n) == (g[1] + g[2] + g[3]) % n

Pick(g, seq) == <<seq[Draw(g, Len(seq)) + 1], Next1(g)>>
Between(g, lo, hi) == <<lo + Draw(g, hi - lo + 1), Next1(g)>>
Coin(g, pct) == <<Draw(g, 100) < pct, Next1(g)>>

\* a random permutation of a sequence
RECURSIVE Shuffle(_, _)
Shuffle(g, s) ==
    IF Len(s) <= 1 THEN <<s, g>>
    ELSE LET i == Draw(g, Len(s)) + 1
             rest == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
             r == Shuffle(Next1(g), rest)
         IN <<<<s[i]>> \o r[1], r[2]>>
=============================================================================
