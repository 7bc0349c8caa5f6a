------------------------------- MODULE InferMC -------------------------------
(* Hosts feed their shard's rows batch by batch; the step joins what the shards *)
(* fed into one batch and every host gets all of it; at the end padding is      *)
(* dropped and results are put in order.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxN, MaxShards, MaxPer, MaxHosts
VARIABLES n, S, b, H, fed, got, out
vars == <<n, S, b, H, fed, got, out>>
Hosts == 1..H
Shard(h) == ((h - 1) % S)
Padded == LET g == S * b IN IF (n % g) = 0 THEN n ELSE n + g - (n % g)
Index(q) == IF q < n THEN q ELSE -1              \* of padded position q
Content(q) == IF q < n THEN q ELSE 0             \* padding repeats the first row
Steps == Padded \div (S * b)
Fed(s, t) == [i \in 1..b |-> LET q == s + S * ((t - 1) * b + i - 1) IN [i |-> Index(q), v |-> Content(q) + 100]]
RECURSIVE Join(_, _)
Join(s, t) == IF s = S THEN <<>> ELSE Fed(s, t) \o Join(s + 1, t)
Init == /\ n \in 1..MaxN /\ S \in 1..MaxShards /\ b \in 1..MaxPer /\ H \in 1..MaxHosts /\ H >= S
        /\ fed = [h \in Hosts |-> 0] /\ got = [h \in Hosts |-> <<>>] /\ out = [h \in Hosts |-> <<>>]
(* a host starts a step when it has the result of its last one *)
Feed(h) == fed[h] < Steps /\ Len(got[h]) = fed[h] * S * b /\ fed' = [fed EXCEPT ![h] = @ + 1]
           /\ UNCHANGED <<n, S, b, H, got, out>>
(* the joint step needs all hosts, its result reaches hosts one by one *)
Take(h) == LET t == Len(got[h]) \div (S * b) + 1
           IN /\ fed[h] = t /\ \A g \in Hosts : fed[g] >= t
              /\ got' = [got EXCEPT ![h] = @ \o Join(0, t)]
              /\ UNCHANGED <<n, S, b, H, fed, out>>
Real(h) == SelectSeq(got[h], LAMBDA r : r.i >= 0)
Give(h) == /\ Len(got[h]) = Padded /\ out[h] = <<>>
           /\ out' = [out EXCEPT ![h] = SortSeq(Real(h), LAMBDA x, y : x.i < y.i)]
           /\ UNCHANGED <<n, S, b, H, fed, got>>
Next == \E h \in Hosts : Feed(h) \/ Take(h) \/ Give(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Together == \A g, h \in Hosts : fed[g] - fed[h] <= 1
Paired == \A h \in Hosts : out[h] # <<>> => out[h] = [i \in 1..n |-> [i |-> i - 1, v |-> i - 1 + 100]]
Done == <>(\A h \in Hosts : out[h] # <<>>)
=============================================================================
