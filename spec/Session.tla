------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A user's session with the library: a heap of expressions and what the   *)
(* operations answered so far.  Observations (structure and printed form)  *)
(* are named by numbers.  The two guarantees are in the transition itself: *)
(* a call adds at most one object and changes none (C12), and it answers   *)
(* what it answered before for arguments of the same structure, and what a *)
(* pristine process answers (C13).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* st: [heap |-> sequence of observations, step |-> which step made each object, memo |-> function from <<operation, parameter, observations>> to the answer]
Empty == [heap |-> <<>>, step |-> <<>>, memo |-> <<>>, n |-> 0]

IsPrefix2(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
ObjectOf(st, k) == CHOOSE i \in DOMAIN st.step : st.step[i] = k
CallKey(st, c) == <<c.op, c.par, [i \in DOMAIN c.args |-> st.heap[ObjectOf(st, c.args[i])]]>>

\* why the call c cannot be a step from st: "" when it can
Refusal12(st, c) ==
    IF ~IsPrefix2(st.heap, c.heap) THEN "an existing expression changed"
    ELSE IF Len(c.heap) # Len(st.heap) + (IF c.kept THEN 1 ELSE 0) THEN "objects appeared or disappeared"
    ELSE IF c.kept /\ c.heap[Len(c.heap)] # c.res THEN "observing an expression changed it"
    ELSE IF ~c.containers THEN "a list or dictionary given by the caller changed, or the result changed with it"
    ELSE ""
Refusal13(st, c) ==
    LET key == CallKey(st, c) IN
    IF key \in DOMAIN st.memo /\ st.memo[key] # c.res THEN "the same call gave another result before"
    ELSE IF c.fresh # c.res THEN "a fresh process gives another result"
    ELSE ""
After(st, c) ==
    LET key == CallKey(st, c) IN
    [heap |-> c.heap, step |-> IF c.kept THEN Append(st.step, st.n + 1) ELSE st.step,
     memo |-> IF key \in DOMAIN st.memo THEN st.memo ELSE (key :> c.res) @@ st.memo, n |-> st.n + 1]

\* the first call that is not a step of the specification: <<index, reason>>, or <<0, "">>
RECURSIVE Walk(_, _, _, _)
Walk(which, st, cs, k) ==
    IF k > Len(cs) THEN <<0, "">>
    ELSE LET why == IF which = "C12" THEN Refusal12(st, cs[k]) ELSE Refusal13(st, cs[k]) IN
         IF why # "" THEN <<k, why>> ELSE Walk(which, TLCEval(After(st, cs[k])), cs, k + 1)
=============================================================================
