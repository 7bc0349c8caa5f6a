------------------------------ MODULE BitSearch ------------------------------
(* Binary search over the bits of a signed number of W bits: the largest number *)
(* at which a monotone predicate is false.  With Float, the number is the rank  *)
(* of a floating point number of 1 sign bit, E exponent bits and the rest       *)
(* mantissa, not finite numbers answer false below and true above, and the      *)
(* search yields the largest finite float at which the predicate is false.      *)
EXTENDS Integers, TLC
CONSTANTS W, E, Float
VARIABLES T, cur, i
vars == <<T, cur, i>>
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Half == Pow(W - 1)
Min == -Half
Max == Half - 1
Num == Min..Max
(* the float of rank x, as sign and magnitude (the bits below the sign) *)
Neg(x) == x < 0
Mag(x) == IF x < 0 THEN -x - 1 ELSE x
Finite(x) == Mag(x) < Half - Pow(W - 1 - E)
(* -0 and 0 are equal, so no predicate on floats tells them apart *)
Pred0(t, x) == IF Float /\ Mag(x) = 0 THEN 0 > t ELSE x > t
Pred(t, x) == IF ~Float \/ Finite(x) THEN Pred0(t, x) ELSE x >= 0
Init == T \in (Num \cup {Min - 1}) /\ cur = -1 /\ i = W
First == /\ i = W /\ i' = W - 1 /\ T' = T
         /\ cur' = IF Pred(T, 0) THEN Min ELSE 0
Bit == /\ i \in 1..(W - 1) /\ i' = i - 1 /\ T' = T
       /\ cur' = IF Pred(T, cur + Pow(i - 1)) THEN cur ELSE cur + Pow(i - 1)
Next == First \/ Bit
Spec == Init /\ [][Next]_vars
Answers(t) == {x \in Num : ~Pred(t, x)}
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
Answer(t) == IF Answers(t) = {} THEN Min ELSE Largest(Answers(t))
(* the bits still to be decided can reach the answer *)
Reach == i < W => cur <= Answer(T) /\ Answer(T) <= cur + Pow(i) - 1
Done == i = 0 => cur = Answer(T)
DoneFinite == (Float /\ i = 0 /\ \E x \in Num : Finite(x) /\ ~Pred(T, x)) =>
                cur = Largest({x \in Num : Finite(x) /\ ~Pred(T, x)})
=============================================================================
