------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The search for an antiderivative as a transition system, on AND/OR      *)
(* graphs of goals: a goal is in the table (Yes) or has alternatives, each *)
(* a list of goals that all have to be reached.  A step expands any        *)
(* unfinished leaf; a node whose goal is that of an ancestor fails.        *)
(* TLC explores every graph of NG goals of a table and every schedule, and *)
(* shows what the verdicts on the real search (JInt!C11) rely on: the      *)
(* search cannot get stuck, solves exactly what the fixpoint says, and the *)
(* order does not matter.                                                  *)
(***************************************************************************)
EXTENDS JInt
CONSTANTS NG, FROM, TO          \* number of goals; which of the graphs
VARIABLES graph, tree

Yes0 == <<<<0>>>>
\* alternatives over the goals 1..NG
AltPool == IF NG = 2 THEN <<Yes0, <<>>, <<<<1>>>>, <<<<2>>>>, <<<<1, 2>>>>, <<<<1>>, <<2>>>>, <<<<2>>, <<1, 2>>>>, <<<<1, 2>>, <<2>>, <<1>>>>>>
           ELSE <<Yes0, <<>>, <<<<1>>>>, <<<<2>>>>, <<<<3>>>>, <<<<2, 3>>>>, <<<<2>>, <<3>>>>, <<<<3>>, <<2>>>>, <<<<1, 2>>, <<3>>>>, <<<<2, 3>>, <<3>>>>, <<<<3>>, <<1, 3>>>>>>
NA == Len(AltPool)
GraphAt(i) == [k \in 1..NG |-> AltPool[((i \div (IF k = 1 THEN 1 ELSE IF k = 2 THEN NA ELSE NA * NA)) % NA) + 1]]
NGraphs == IF NG = 2 THEN NA * NA ELSE NA * NA * NA

Node1(goal, pa, ty) == [g |-> goal, ty |-> ty, ch |-> <<>>, pa |-> pa]
RECURSIVE Anc(_, _)
Anc(t, k) == IF k = 0 THEN {} ELSE (IF t[k].g = 0 THEN {} ELSE {t[k].g}) \cup Anc(t, t[k].pa)
\* a fresh node for a goal below node k
Leaf(t, k, goal) == Node1(goal, k, IF goal \in Anc(t, k) THEN "FAILURE" ELSE "UNSET")
\* appends a node below k
AddTo(t, k, n) == Append([t EXCEPT ![k].ch = Append(@, Len(t) + 1)], n)
RECURSIVE AddGoals(_, _, _)
AddGoals(t, k, gs) == IF gs = <<>> THEN t ELSE AddGoals(AddTo(t, k, Leaf(t, k, Head(gs))), k, Tail(gs))
AddAlt(t, k, alt) == IF Len(alt) = 1 THEN AddTo(t, k, Leaf(t, k, alt[1]))
                     ELSE LET t2 == AddTo(t, k, Node1(0, k, "AND")) IN AddGoals(t2, Len(t2), alt)
RECURSIVE AddAlts(_, _, _)
AddAlts(t, k, alts) == IF alts = <<>> THEN t ELSE AddAlts(AddAlt(t, k, Head(alts)), k, Tail(alts))
Expand(t, k) ==
    LET alts == graph[t[k].g] IN
    IF alts = Yes0 THEN [t EXCEPT ![k].ty = "SOLUTION"]
    ELSE IF alts = <<>> THEN [t EXCEPT ![k].ty = "FAILURE"]
    ELSE AddAlts(IF Len(alts) > 1 THEN [t EXCEPT ![k].ty = "OR"] ELSE t, k, alts)

St == TLCEval(Implied(tree))
Finished == St[1].sv \/ St[1].fl
Init == \E i \in FROM..(IF TO < NGraphs THEN TO ELSE NGraphs - 1) : graph = GraphAt(i) /\ tree = <<Node1(1, 0, "UNSET")>>
Next == ~Finished /\ \E k \in St[1].uf : tree' = Expand(tree, k) /\ UNCHANGED graph
Spec == Init /\ [][Next]_<<graph, tree>> /\ WF_<<graph, tree>>(Next)

Solvable == Reach(graph, {})
\* what is called solved can be solved; the root is only given up when it cannot
Sound == \A k \in DOMAIN tree : St[k].sv /\ tree[k].g # 0 => tree[k].g \in Solvable
Complete == St[1].fl => 1 \notin Solvable
\* no node is solved and failed; while the root is open there is a leaf to work on
Exclusive == \A k \in DOMAIN tree : ~(St[k].sv /\ St[k].fl)
NotStuck == Finished \/ St[1].uf # {}
\* a path repeats no goal but the last one
Depth == \A k \in DOMAIN tree : tree[k].ty # "FAILURE" /\ tree[k].g # 0 => tree[k].g \notin Anc(tree, tree[k].pa)
Inv == Sound /\ Complete /\ Exclusive /\ NotStuck /\ Depth
Terminates == <>Finished
=============================================================================
