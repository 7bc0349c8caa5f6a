----------------------------- MODULE DataFeedMC -----------------------------
(* Hosts that know only their own shard place their rows by themselves: the i-th *)
(* of their splits goes to the i-th block among those of their own devices.  All *)
(* small meshes whose hosts own whole shards; each example is read once, lands   *)
(* on the devices that own its row, and what follows a restored position is what *)
(* followed it before.                                                           *)
EXTENDS DataFeed
CONSTANTS D, M, Per, N, Slots
VARIABLES seen, after
mvars == <<dvars, seen, after>>
Names == <<"data", "model">>
(* hosts hold consecutive devices; whole rows of the mesh, or parts of one *)
Feeds == {[mesh |-> [names |-> Names, dims |-> <<D, M>>, hosts |-> [i \in 1..(D * M) |-> (i - 1) \div k]],
           data |-> <<"data">>,
           shards |-> n, per |-> p,
           script |-> [s \in 1..n |-> [j \in 1..((N + n - s) \div n) |-> (j - 1) * n + (s - 1)]]] :
          k \in {x \in 1..(D * M) : (D * M) % x = 0 /\ (x % M = 0 \/ M % x = 0)}, n \in 1..D, p \in Per}
(* as many shards as there are different sets of rows *)
Sets(f) == {Held(f.mesh, h, f.data, B(f)) : h \in Hosts(f.mesh)}
Good(f) == Cardinality(Sets(f)) = f.shards /\ B(f) % D = 0 /\ Batches(f) > 0
ShardOf(f, h) == Least(Held(f.mesh, h, f.data, B(f))) \div f.per
(* what host h does on its own *)
Local(f, n, h) == [r \in 0..(f.per - 1) |-> f.script[ShardOf(f, h) + 1][n * f.per + r + 1]]
Len1(f) == B(f) \div D
Blocks(f, h) == {Block(f.mesh, c, f.data, B(f)) : c \in Cells(f.mesh, h)}
Rank(f, h, b) == Cardinality({x \in Blocks(f, h) : x[1] < b[1]})
Own(f, n, d) == LET h == f.mesh.hosts[d]
                    i == Rank(f, h, Block(f.mesh, Unravel(d - 1, f.mesh.dims), f.data, B(f)))
                IN [r \in 1..Len1(f) |-> Local(f, n, h)[i * Len1(f) + r - 1]]
Init == \E f \in {x \in Feeds : Good(x)} : DInit(f, Slots) /\ seen = <<>> /\ after = [k \in Slots |-> <<>>]
Ids(f, n) == {Row(f, n, q) : q \in 0..(B(f) - 1)}
MTake == Take /\ seen' = (IF Len(seen) > pos THEN [seen EXCEPT ![pos + 1] = Ids(feed, pos)] ELSE Append(seen, Ids(feed, pos)))
         /\ after' = [k \in Slots |-> IF saved[k] = pos /\ after[k] = <<>> THEN got' ELSE after[k]]
MSave(k) == Save(k) /\ after' = [after EXCEPT ![k] = <<>>] /\ UNCHANGED seen
MBack == (Reset \/ \E k \in Slots : Restore(k)) /\ UNCHANGED <<seen, after>>
Next == MTake \/ MBack \/ (\E k \in Slots : MSave(k)) \/ ((Dry \/ Peek) /\ UNCHANGED <<seen, after>>)
Spec == Init /\ [][Next]_mvars
(* no example twice; at the end, fewer than a batch are left *)
OnceEach == \A i \in DOMAIN seen : Cardinality(seen[i]) = B(feed) /\ \A j \in DOMAIN seen : i = j \/ seen[i] \cap seen[j] = {}
AllRead == pos = Batches(feed) => N - Cardinality(UNION Range(seen)) < B(feed) + feed.shards
OwnRows == pos >= 0 /\ pos < Batches(feed) => \A d \in DOMAIN feed.mesh.hosts : Own(feed, pos, d) = On(feed, pos, d)
(* the same batch comes after a saved position whenever it is restored *)
Again == \A k \in Slots : after[k] # <<>> /\ pos = saved[k] => Placed(feed, pos) = after[k]
=============================================================================
