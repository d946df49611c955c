------------------------------- MODULE MCMerge -------------------------------
(***************************************************************************)
(* Putting like operands together, as sums and products do it, in any      *)
(* order: a bag of terms, where a step takes two terms with the same       *)
(* monomial (sum) or two powers of the same base (product) and puts one in *)
(* their place, or drops a neutral one.  TLC explores every order for all  *)
(* bags of SIZE terms and shows that no order gets stuck elsewhere than in *)
(* the normal form of Poly.tla: the form which C02 requires of the code    *)
(* whatever the order and the grouping of the operands.                    *)
(***************************************************************************)
EXTENDS Poly
CONSTANTS SIZE, KIND            \* KIND: "sum" or "prod"
VARIABLES start, bag            \* sequences of <<monomial or base, rational>>

Bases == <<<<"sym", "x">>, <<"sym", "y">>, <<"pi">>>>
Nums == <<<<"1", "1">>, <<"-1", "1">>, <<"1", "2">>, <<"-1", "2">>, <<"2", "1">>>>
Pool == {<<k, n>> : k \in 1..3, n \in 1..5}
SortedBags == {s \in [1..SIZE -> Pool] : \A i \in 1..(SIZE - 1) : s[i][1] < s[i + 1][1] \/ (s[i][1] = s[i + 1][1] /\ s[i][2] <= s[i + 1][2])}
Term(p) == <<p[1], Nums[p[2]]>>
PolyOf(b) == IF KIND = "sum" THEN FoldLeft(LAMBDA acc, t : PAdd(acc, PTimesMono(PConst(t[2]), {<<Bases[t[1]], QOne>>}, QOne)), PZero, b)
             ELSE FoldLeft(LAMBDA acc, t : PMul(acc, PAtom(Bases[t[1]], t[2])), POne, b)
Without(b, i) == SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
Init == \E s \in SortedBags : start = PolyOf([i \in 1..SIZE |-> Term(s[i])]) /\ bag = [i \in 1..SIZE |-> Term(s[i])]
Merge == \E i, j \in DOMAIN bag : i < j /\ bag[i][1] = bag[j][1] /\
            bag' = Without([bag EXCEPT ![i] = <<@[1], QAdd(@[2], bag[j][2])>>], j)
Drop == \E i \in DOMAIN bag : QSgn(bag[i][2]) = 0 /\ bag' = Without(bag, i)
\* operands may also be reordered at any time
Swap == \E i \in 1..(Len(bag) - 1) : bag' = [bag EXCEPT ![i] = bag[i + 1], ![i + 1] = bag[i]]
Next == UNCHANGED start /\ (Merge \/ Drop \/ Swap)
Spec == Init /\ [][Next]_<<start, bag>> /\ WF_<<start, bag>>(UNCHANGED start /\ (Merge \/ Drop))
Normal == ~(\E i, j \in DOMAIN bag : i # j /\ bag[i][1] = bag[j][1]) /\ \A i \in DOMAIN bag : QSgn(bag[i][2]) # 0
\* the value stays, and the end is the normal form: one term for each monomial of the polynomial
Inv == /\ PolyOf(bag) = start
       /\ Normal /\ KIND = "sum" => {<<Bases[bag[i][1]], bag[i][2]>> : i \in DOMAIN bag} = {<<(CHOOSE e \in m : TRUE)[1], start[m]>> : m \in DOMAIN start} /\ Len(bag) = Cardinality(DOMAIN start)
       /\ Normal /\ KIND = "prod" => {<<Bases[bag[i][1]], bag[i][2]>> : i \in DOMAIN bag} = (CHOOSE m \in DOMAIN start : TRUE) /\ Len(bag) = Cardinality(CHOOSE m \in DOMAIN start : TRUE)
       /\ ~Normal => ENABLED (Merge \/ Drop)
Terminates == <>[]Normal
=============================================================================
