------------------------------ MODULE DataFeed ------------------------------
(* Training data on its way to the devices (C25).  A global batch has B rows;   *)
(* every data shard reads B / shards of them from its own part of the input     *)
(* (its script), and row q of batch n lies on the devices whose block of the    *)
(* batch contains q.  All hosts step, save and restore together.                *)
EXTENDS Partition
VARIABLES feed, pos, saved, got
dvars == <<feed, pos, saved, got>>
B(f) == f.per * Len(f.script)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Batches(f) == Least({Len(f.script[s]) \div f.per : s \in DOMAIN f.script})
Row(f, n, q) == f.script[(q \div f.per) + 1][n * f.per + (q % f.per) + 1]
On(f, n, d) == LET b == Block(f.mesh, Unravel(d - 1, f.mesh.dims), f.data, B(f))
               IN [i \in 1..(b[2] - b[1]) |-> Row(f, n, b[1] + i - 1)]
Placed(f, n) == [d \in DOMAIN f.mesh.hosts |-> On(f, n, d)]
DInit(f, slots) == feed = f /\ pos = 0 /\ saved = [k \in slots |-> -1] /\ got = <<>>
Peek == pos >= 0 /\ pos < Batches(feed) /\ got' = Placed(feed, pos) /\ UNCHANGED <<feed, pos, saved>>
Take == pos >= 0 /\ pos < Batches(feed) /\ got' = Placed(feed, pos) /\ pos' = pos + 1 /\ UNCHANGED <<feed, saved>>
(* a shard has run dry: its host can only go back *)
Dry == pos = Batches(feed) /\ pos' = -1 /\ UNCHANGED <<feed, saved, got>>
Save(k) == pos >= 0 /\ saved' = [saved EXCEPT ![k] = pos] /\ UNCHANGED <<feed, pos, got>>
Restore(k) == saved[k] >= 0 /\ pos' = saved[k] /\ UNCHANGED <<feed, saved, got>>
Reset == pos' = 0 /\ UNCHANGED <<feed, saved, got>>
DNext(slots) == Peek \/ Take \/ Dry \/ Reset \/ \E k \in slots : Save(k) \/ Restore(k)
=============================================================================
