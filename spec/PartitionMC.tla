---------------------------- MODULE PartitionMC ----------------------------
(* A mesh of devices on hosts that are blocks of it.  Hosts write their chunks  *)
(* of arrays (only the designated writers do) and feed their rows of a batch,   *)
(* in any order; both are complete at the end and nothing was done twice.       *)
EXTENDS Partition
CONSTANTS D, M
VARIABLES m, axes, own, written, fed, todo      \* own: per host, what it writes and feeds
vars == <<m, axes, own, written, fed, todo>>
Divs(n) == {d \in 1..n : n % d = 0}
Shape == <<2 * D, 2 * M>>
(* hosts of ld x lm devices *)
MeshOf(ld, lm) == [names |-> <<"data", "model">>, dims |-> <<D, M>>,
                   hosts |-> [e \in 1..(D * M) |-> LET c == Unravel(e - 1, <<D, M>>)
                                                   IN (c[1] \div ld) * (M \div lm) + c[2] \div lm]]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Chunk(h) == [i \in 1..2 |-> LET R == Held(m, h, axes[i], Shape[i]) IN <<Min(R), Max(R) + 1>>]
Writer(h) == \A k \in Hosts(m) : Chunk(k) = Chunk(h) => h <= k
Elements(sl) == {<<x, y>> : x \in Rows(sl[1]), y \in Rows(sl[2])}
Shard(h) == Held(m, h, <<"data">>, Shape[1])
First(h) == \A k \in Hosts(m) : Shard(k) = Shard(h) => h <= k
Axes == {<<>>, <<"data">>, <<"model">>, <<"data", "model">>}
Init == /\ m \in {MeshOf(ld, lm) : ld \in Divs(D), lm \in Divs(M)}
        /\ axes \in {a \in Axes \X Axes : Range(a[1]) \cap Range(a[2]) = {} /\ Even(m, [shape |-> Shape, axes |-> a])
                                          /\ \A h \in Hosts(m) : \A i \in 1..2 : LET R == Held(m, h, a[i], Shape[i])
                                                                                 IN R = Min(R)..Max(R)}
        /\ own = [h \in Hosts(m) |-> [writes |-> IF Writer(h) THEN Elements(Chunk(h)) ELSE {},
                                      feeds |-> IF First(h) THEN Shard(h) ELSE {}]]
        /\ written = [e \in Elements(<<<<0, 2 * D>>, <<0, 2 * M>>>>) |-> 0]
        /\ fed = [r \in 0..(2 * D - 1) |-> 0] /\ todo = Hosts(m)
Turn(h) == /\ h \in todo /\ todo' = todo \ {h}
           /\ written' = [e \in DOMAIN written |-> written[e] + IF e \in own[h].writes THEN 1 ELSE 0]
           /\ fed' = [r \in DOMAIN fed |-> fed[r] + IF r \in own[h].feeds THEN 1 ELSE 0]
           /\ UNCHANGED <<m, axes, own>>
Next == \E h \in todo : Turn(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == (\A e \in DOMAIN written : written[e] <= 1) /\ (\A r \in DOMAIN fed : fed[r] <= 1)
Whole == todo = {} => (\A e \in DOMAIN written : written[e] = 1) /\ (\A r \in DOMAIN fed : fed[r] = 1)
Done == <>(todo = {})
=============================================================================
