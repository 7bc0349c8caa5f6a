--------------------------- MODULE DataFeedCases ---------------------------
(* What the shards of datasets hold together (C25). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
(* where the scripts come from: the input of n examples, read by every shard.   *)
(* c.parts: per shard, its batches; c.epochs: 0 for endless (a prefix was read) *)
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flat(Tail(bs))
Ceil(a, b) == (a + b - 1) \div b
Distinct(s) == Cardinality(Range(s)) = Len(s)
PartOk(c, s) ==
  LET bs == c.parts[s] per == c.batch \div c.shards x == Flat(bs)
      sizes == {c.n \div c.shards, Ceil(c.n, c.shards)}
  IN /\ \A i \in DOMAIN bs : Len(bs[i]) = per
     /\ Range(x) \subseteq 0..(c.n - 1)
     (* every epoch reads each example of the part once; what is left of the last batch is dropped *)
     /\ \E k \in sizes \ {0} :
          /\ c.epochs > 0 => Len(x) = ((c.epochs * k) \div per) * per
                             /\ \A i \in Range(x) : Cardinality({j \in DOMAIN x : x[j] = i}) <= c.epochs
          /\ c.epochs = 0 => Len(bs) = c.read
          /\ Cardinality(Range(x)) <= k
          /\ ~c.shuffle => /\ \A i \in DOMAIN x : i + k \in DOMAIN x => x[i + k] = x[i]
                           /\ \A i \in DOMAIN x : \A j \in DOMAIN x : i # j /\ x[i] = x[j] => (i - j) % k = 0
SourceOk(c) ==
  IF c.batch % c.shards # 0 THEN c.raised
  ELSE /\ ~c.raised /\ Len(c.parts) = c.shards
       /\ \A s \in DOMAIN c.parts : PartOk(c, s) \/ (c.parts[s] = <<>> /\ c.n < c.shards)
       /\ \A s \in DOMAIN c.parts : \A u \in DOMAIN c.parts : s # u => Range(Flat(c.parts[s])) \cap Range(Flat(c.parts[u])) = {}
----------------------------------------------------------------------------
(* data of evaluations during training: all shards together read the input over *)
(* and over, in c.steps batches per shard, each time the same                   *)
Times(c, i) == Cardinality({<<s, b, r>> \in (DOMAIN c.parts) \X (1..c.steps) \X (1..(c.batch \div c.shards)) : c.parts[s][b][r] = i})
EvalOk(c) ==
  IF c.batch % c.shards # 0 THEN c.raised
  ELSE /\ ~c.raised /\ Len(c.parts) = c.shards /\ c.same
       /\ \A s \in DOMAIN c.parts : Len(c.parts[s]) = c.steps
                                    /\ \A b \in DOMAIN c.parts[s] : Len(c.parts[s][b]) = c.batch \div c.shards
       (* what one shard alone would read, cut up *)
       /\ Len(c.whole) = c.steps
       /\ \A b \in 1..c.steps : \A i \in Range(c.whole[b]) \cup UNION {Range(c.parts[s][b]) : s \in DOMAIN c.parts} :
            Cardinality({r \in DOMAIN c.whole[b] : c.whole[b][r] = i})
              = Cardinality({<<s, r>> \in (DOMAIN c.parts) \X (1..(c.batch \div c.shards)) : c.parts[s][b][r] = i})
       /\ c.mixed \/ \A i \in 0..(c.n - 1) : LET k == (c.steps * c.batch) \div c.n IN Times(c, i) \in {k, k + 1}
       /\ c.mixed \/ \A s \in DOMAIN c.parts : Range(Flat(c.parts[s])) \subseteq 0..(c.n - 1)
(* the names: tasks that have the split, and the mixture *)
NamesOk(c) == Range(c.names) = Range(c.having) \cup Range(c.mixture) /\ Distinct(c.names)
OkData(c) == CASE c.what = "source" -> SourceOk(c) [] c.what = "eval" -> EvalOk(c) [] c.what = "names" -> NamesOk(c)
=============================================================================
