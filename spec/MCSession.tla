------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* Session.tla against every library of a small kind.  A library answers   *)
(* calls by a function of the arguments' structures; a faulty one may, in  *)
(* any call, also write to an object, lose or add one, touch a container,  *)
(* or answer something else.  TLC explores all histories of MAXCALLS calls *)
(* with at most one fault and shows that a history without one is never    *)
(* refused and that the fault is refused in the very call it happens in    *)
(* (a wrong answer by C13, everything else by C12).                        *)
(***************************************************************************)
EXTENDS Session
CONSTANTS MAXCALLS, VALS, OPS
VARIABLES st, fault, why12, why13, lib

None == "none"
Vals == 1..VALS
\* the libraries: answer to operation o on the structures as
Libs == [(1..OPS) \X Vals -> Vals]
Args == {i \in DOMAIN st.step : TRUE}
\* an honest call of operation o on the object made in step k (o = 0: create the value v)
Honest(o, k, v, keep) ==
    LET res == IF o = 0 THEN v ELSE lib[<<o, st.heap[k]>>] IN
    [op |-> o, par |-> IF o = 0 THEN v ELSE 0, args |-> IF o = 0 THEN <<>> ELSE <<st.step[k]>>, res |-> res, fresh |-> res,
     heap |-> IF keep THEN Append(st.heap, res) ELSE st.heap, kept |-> keep, containers |-> TRUE]
Calls == {Honest(0, 0, v, TRUE) : v \in Vals} \cup UNION {{Honest(o, k, 0, b) : o \in 1..OPS, b \in BOOLEAN} : k \in DOMAIN st.heap}
\* what a fault can do to the observation of a call
Faulty(c) ==
    {<<"write", [c EXCEPT !.heap[i] = v]>> : i \in DOMAIN st.heap, v \in Vals} \cup
    {<<"extra", [c EXCEPT !.heap = Append(@, v)]>> : v \in Vals} \cup
    {<<"container", [c EXCEPT !.containers = FALSE]>>} \cup
    {<<"answer", [c EXCEPT !.res = v, !.heap = IF c.kept THEN Append(st.heap, v) ELSE @]>> : v \in Vals}
Real(c, f) == f[2] # c

Init == lib \in Libs /\ st = Empty /\ fault = None /\ why12 = "" /\ why13 = ""
Do(c) == /\ why12' = Refusal12(st, c)
         /\ why13' = Refusal13(st, c)
         /\ st' = After(st, c)
Next == /\ fault = None /\ st.n < MAXCALLS /\ UNCHANGED lib
        /\ \E c \in Calls :
             \/ Do(c) /\ UNCHANGED fault
             \/ \E f \in Faulty(c) : Real(c, f) /\ Do(f[2]) /\ fault' = f[1]
Inv == /\ fault = None => why12 = "" /\ why13 = ""
       /\ fault \in {"write", "extra", "container"} => why12 # ""
       /\ fault = "answer" => why13 # ""
=============================================================================
