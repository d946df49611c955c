------------------------------- MODULE MCJobs -------------------------------
(* Emits the jobs of one property as JSON lines on standard output. *)
EXTENDS Jobs, Json
CONSTANTS PROP, SEED, NRAND, ENUM, W, ESTEP
VARIABLES w, k
\* with ENUM = FALSE the enumerated part is skipped
FirstJob == IF ENUM THEN 0 ELSE NEnum(PROP)
LastJob == NEnum(PROP) + NRAND - 1
Init == w \in 0..(W - 1) /\ k = FirstJob + w
Next == /\ k <= LastJob
        /\ (k >= NEnum(PROP) \/ k < NAlways(PROP) \/ (k \div W + SEED) % ESTEP = 0) => PrintT("JOB " \o ToJson([id |-> k, j |-> Job(PROP, SEED, k)]))
        /\ k' = k + W
        /\ w' = w
=============================================================================
