------------------------------- MODULE MCTrace -------------------------------
(***************************************************************************)
(* Trace validation: walks over the events recorded from the real code,    *)
(* one file per shard, and prints the verdict on each of them.             *)
(***************************************************************************)
EXTENDS Judge, Json
CONSTANTS PROP, DIR, TAG, NSH      \* the recorded files are DIR/<TAG>1.json ...
VARIABLES sh, i
Traces == [f \in 1..NSH |-> ndJsonDeserialize(DIR \o "/" \o TAG \o ToString(f) \o ".json")]
Init == sh \in 1..NSH /\ i = 1
Next == /\ i <= Len(Traces[sh])
        /\ LET ev == Traces[sh][i]
               r == Verdict(PROP, ev)
           IN PrintT("V " \o ToJson(<<sh, i, r.v, r.c, r.d>>))
        /\ i' = i + 1
        /\ sh' = sh
=============================================================================
