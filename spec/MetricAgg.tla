----------------------------- MODULE MetricAgg -----------------------------
(***************************************************************************)
(* Partial metrics of adjacent pieces of the data are merged pairwise, in  *)
(* any grouping (C10): sums, means, per-step averages (whose step count is *)
(* set at the end) and last values do not depend on it.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Vals, MaxLen
VARIABLES data, parts
vars == <<data, parts>>
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Part(q) == [total |-> Sum(q), count |-> Len(q), last |-> q[Len(q)], steps |-> 1]
Merge(a, b) == [total |-> a.total + b.total, count |-> a.count + b.count, last |-> b.last,
                steps |-> a.steps + b.steps]
RECURSIVE Cuts(_)
Cuts(q) == IF q = <<>> THEN {<<>>}
           ELSE UNION {{<<Part(SubSeq(q, 1, n))>> \o r : r \in Cuts(SubSeq(q, n + 1, Len(q)))} : n \in 1..Len(q)}
Init == /\ data \in UNION {[1..n -> Vals] : n \in 1..MaxLen}
        /\ parts \in Cuts(data)
Step == /\ Len(parts) > 1
        /\ \E i \in 1..(Len(parts) - 1) :
             parts' = SubSeq(parts, 1, i - 1) \o <<Merge(parts[i], parts[i + 1])>>
                      \o SubSeq(parts, i + 2, Len(parts))
        /\ UNCHANGED data
Spec == Init /\ [][Step]_vars
----------------------------------------------------------------------------
Exact == Len(parts) = 1 => [parts[1] EXCEPT !.steps = 1] = Part(data)
Conserved == Sum([i \in DOMAIN parts |-> parts[i].total]) = Sum(data)
=============================================================================
