------------------------------ MODULE TopMaskMC ------------------------------
(* The kept sets are the smallest sets of most probable entries that have k     *)
(* entries, or the mass asked for, up to ties; and a threshold describes them,  *)
(* which is what the search looks for.                                          *)
EXTENDS TopMask
CONSTANTS Vals, MaxLen, Den
VARIABLES x, k, num
vars == <<x, k, num>>
Init == /\ \E n \in 1..MaxLen : x \in [1..n -> Vals]
        /\ k \in 1..MaxLen /\ num \in 0..Den
Spec == Init /\ [][FALSE]_vars
All == DOMAIN x
Upper(S) == \A i \in S, j \in All : x[j] >= x[i] => j \in S
At(th) == {i \in All : x[i] >= th}
Mass(S) == SumOver(x, S)
SmallestK == /\ Upper(KeepK(x, k))
             /\ \/ Cardinality(KeepK(x, k)) >= k
                \/ KeepK(x, k) = All
             /\ \A S \in SUBSET All : Upper(S) /\ (Cardinality(S) >= k \/ S = All) => KeepK(x, k) \subseteq S
ThresholdK == k <= Len(x) => \E th \in Vals : KeepK(x, k) = At(th) /\ \A u \in Vals : (u > th <=> Cardinality(At(u)) < k) \/ At(u) = At(th)
SmallestP == /\ Upper(KeepP(x, num, Den))
             /\ Mass(All) > 0 => Den * Mass(KeepP(x, num, Den)) >= num * Mass(All)
             /\ \A S \in SUBSET All : Upper(S) /\ Den * Mass(S) >= num * Mass(All) => KeepP(x, num, Den) \subseteq S
=============================================================================
