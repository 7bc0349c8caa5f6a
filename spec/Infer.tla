-------------------------------- MODULE Infer --------------------------------
(* What running inference over a dataset gives.  A row's output is a structure  *)
(* of leaves computed from the row's content c, the parameter w and the mutable *)
(* m; leaf j holds w*c + m + 10*j + l in its l-th place.                        *)
EXTENDS Integers, Sequences, FiniteSets
Leaf(k, c, j) == [l \in 1..k.lens[j] |-> k.w * c + k.m + 10 * (j - 1) + l - 1]
Row(k, c) == [j \in DOMAIN k.lens |-> Leaf(k, c, j)]
(* randomness: rows carry the number of the key they were computed with (0: none) *)
KeysOk(k, h) ==
  IF ~k.keyed THEN \A i \in DOMAIN h.keys : h.keys[i] = 0
  ELSE /\ \A i \in DOMAIN h.keys : h.keys[i] > 0
       /\ \A x \in {h.keys[i] : i \in DOMAIN h.keys} : Cardinality({i \in DOMAIN h.keys : h.keys[i] = x}) <= k.batch
HostOk(k, h) ==
  /\ h.idx = [i \in 1..Len(k.rows) |-> i - 1]
  /\ h.out = [i \in DOMAIN k.rows |-> Row(k, k.rows[i])]
  /\ h.shape = k.shape /\ h.aux = k.aux
  /\ KeysOk(k, h)
Ok(k) == /\ \A h \in 1..Len(k.hosts) : HostOk(k, k.hosts[h])
         /\ \A h \in 1..Len(k.hosts) : k.hosts[h] = k.hosts[1]
         /\ k.again = k.hosts[1]
=============================================================================
