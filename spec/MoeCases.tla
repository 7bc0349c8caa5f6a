------------------------------- MODULE MoeCases -------------------------------
(* Meshes, data layouts, axes, rules and losses of mixtures of experts (C28).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
P == INSTANCE Partition
R == INSTANCE AxisRules
Range(q) == {q[i] : i \in DOMAIN q}
Names == <<"data", "expert", "model">>
(* ---- the mesh: the data axis of the plain mesh is cut in two *)
ExpertAxis(D, k) == CHOOSE e \in 1..k : D % e = 0 /\ \A f \in (e + 1)..k : D % f # 0
Groups(ids, w) == {SubSeq(ids, i * w + 1, (i + 1) * w) : i \in 0..(Len(ids) \div w - 1)}
MeshOk(c) ==
  LET D == c.plain.dims[1] M == c.plain.dims[2] e == ExpertAxis(D, c.experts)
  IN /\ c.mesh.names = Names /\ c.mesh.dims = <<D \div e, e, M>>
     /\ Len(c.mesh.ids) = D * M /\ Range(c.mesh.ids) = Range(c.plain.ids)
     /\ Groups(c.mesh.ids, M) = Groups(c.plain.ids, M)
(* ---- the layout: hosts of one shard hold the same rows, shards nothing in common, together all *)
Data == <<"expert", "data">>
First(S) == CHOOSE x \in S : \A y \in S : x <= y
LayoutOk(m, y) ==
  LET n == P!Count(m, Data)
      B == IF y.asked = 0 THEN n ELSE y.asked
      L == y.hosts
      H(h) == P!Held(m, h - 1, Data, B)
  IN IF B % n # 0 THEN y.raised
     ELSE /\ ~y.raised
          /\ \A h \in DOMAIN L : L[h].batch = B /\ L[h].shards = L[1].shards /\ B % L[h].shards = 0
          /\ {L[h].shard : h \in DOMAIN L} = 0..(L[1].shards - 1)
          /\ \A k \in 0..(L[1].shards - 1) : Cardinality({h \in DOMAIN L : L[h].shard = k /\ L[h].first}) = 1
          /\ \A h \in DOMAIN L : Cardinality(H(h)) = B \div L[h].shards
          /\ \A h, k \in DOMAIN L : IF L[h].shard = L[k].shard THEN H(h) = H(k) ELSE H(h) \cap H(k) = {}
          (* shards are numbered in the order of their rows *)
          /\ \A h, k \in DOMAIN L : L[h].shard < L[k].shard => First(H(h)) < First(H(k))
(* a host's devices have to be a box of the mesh *)
Interval(S) == \A a, b \in S : \A x \in a..b : x \in S
Boxed(m) == \A h \in P!Hosts(m) : LET C == P!Cells(m, h) X(i) == {k[i] : k \in C} IN
              (\A i \in 1..3 : Interval(X(i))) /\ Cardinality(C) = Cardinality(X(1)) * Cardinality(X(2)) * Cardinality(X(3))
Expected(c) == LET D == c.plain.dims[1] e == ExpertAxis(D, c.experts)
               IN [names |-> Names, dims |-> <<D \div e, e, c.plain.dims[2]>>, hosts |-> c.plain.hosts]
TopoOk(c) == IF c.plainrejected THEN c.rejected # ""
             ELSE IF c.rejected # "" THEN ~Boxed(Expected(c))
             ELSE /\ MeshOk(c)
                  /\ \A i \in DOMAIN c.arrays : P!ArrayOk(c.mesh, c.arrays[i])
                  /\ \A i \in DOMAIN c.layouts : LayoutOk(c.mesh, c.layouts[i])
(* ---- data given to, and got from, a partitioned function: rows on every device *)
PlaceOk(c) == /\ \A d \in DOMAIN c.rows : LET b == P!Block(c.mesh, P!Unravel(d - 1, c.mesh.dims), Data, c.batch)
                                          IN c.rows[d] = [i \in 1..(b[2] - b[1]) |-> b[1] + i - 1] /\ c.out[d] = c.rows[d]
              /\ c.sum = (c.batch * (c.batch - 1)) \div 2
(* ---- logical axes: c.leaves, each of one parameter's target or state: plain: *)
(* its axes before, got: after; each either [none |-> TRUE] or names           *)
Spread(c, x) == x.state /\ (IF c.filter = "given" THEN x.given
                            ELSE c.filter = "factored" /\ x.expert /\ x.kernel /\ x.leaf \in {"v_row", "v_col"})
AxesOk(c) ==
  IF c.filter = "none of these" THEN c.raised
  ELSE /\ ~c.raised /\ c.same /\ c.mutables
       /\ c.twice = \E i \in DOMAIN c.leaves : R!Twice(c.leaves[i].got.names)
       /\ \A i \in DOMAIN c.leaves : LET x == c.leaves[i] IN
            /\ x.got = IF c.inference \/ ~Spread(c, x) THEN x.plain ELSE [none |-> FALSE, names |-> <<"expert">> \o x.plain.names]
            (* what is spread over the experts has a part for each *)
            /\ (~c.inference /\ Spread(c, x) /\ c.filter = "factored") => x.shape # <<>> /\ x.shape[1] = c.experts
            /\ (~x.got.none /\ ~c.twice) => x.isspec /\ x.spec = R!Mapped(x.got.names, c.rules)
            /\ (~x.state) => ~x.got.none
(* ---- the rules: what each kind of array is sharded over *)
Model == R!Model \cup {"expert_mlp"}
RulesOk(c) ==
  LET emb(used) == IF c.act = 2 /\ "model" \notin used THEN <<"model">>
                   ELSE IF c.par = 2 /\ "data" \notin used THEN <<"data">> ELSE <<>>
      one(i) == LET n == c.names[i] IN
                IF n = "batch" THEN <<"expert", "data">> ELSE IF n \in R!Model THEN <<"model">> ELSE <<>>
      late(i) == LET n == c.names[i] IN
                 IF n = "expert" THEN <<"expert">> ELSE IF n = "expert_mlp" THEN <<"model">> ELSE IF n = "expert_replicas" THEN <<"data">>
                 ELSE IF \E k \in DOMAIN c.extra : c.extra[k].name = n
                      THEN c.extra[CHOOSE k \in DOMAIN c.extra : c.extra[k].name = n].to ELSE <<>>
      used == UNION {Range(one(i)) : i \in DOMAIN c.names}
      (* the rules of experts come after those of dense models, embed the last of them *)
      all == used \cup IF \E i \in DOMAIN c.names : c.names[i] = "embed" THEN Range(emb(used)) ELSE {}
  IN ~c.raised /\ c.spec = [i \in DOMAIN c.names |->
       IF c.names[i] = "embed" THEN emb(used) ELSE IF one(i) # <<>> THEN one(i)
       ELSE IF Range(late(i)) \cap all = {} THEN late(i) ELSE <<>>]
(* ---- the loss: numbers in units of 1/2^12, errors of a few units *)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == a - b \in (-8 - Abs(b) \div 512)..(8 + Abs(b) \div 512)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
(* factor (sixteenths) times the mean over the layers *)
Part(f, q) == (f * Sum(q)) \div (16 * Len(q))
LossOk(c) ==
  IF c.missing THEN c.raised
  ELSE LET a == Part(c.auxf, c.aux) z == Part(c.zf, c.rz) IN
       /\ ~c.raised
       /\ Near(c.total, c.base + a + z)
       /\ Near(c.m.aux, a) /\ Near(c.m.rz, z) /\ Near(c.m.left, Part(16, c.left)) /\ Near(c.m.usage, Part(16, c.usage))
       /\ Near(c.m.confidence, Part(16, c.confidence))
       /\ Near(c.m.loss, c.total)
       (* what is said to be cross entropy is free of every auxiliary loss *)
       /\ Near(c.m.cross, c.base - c.basez) /\ Near(c.m.zloss, c.basez)
       /\ Near(c.m.pertoken, (c.base - c.basez) \div c.tokens)
       (* the gradients with respect to the parameter the routers see *)
       /\ Near(c.grad, (c.auxf * c.slope) \div 16)
(* ---- scaling of gradients: exactly the named leaves, in place *)
ScaleOk(c) == c.same /\ \A i \in DOMAIN c.leaves : LET x == c.leaves[i] IN x.after = IF x.hit THEN x.before * c.factor ELSE x.before
PartsOk(c) == IF c.num = 0 /\ c.tile = <<>> THEN c.raised
              ELSE IF c.num > 0 /\ c.tile # <<>> /\ P!Prod(c.tile) # c.num THEN c.raised
              ELSE ~c.raised /\ c.got = IF c.num > 0 THEN c.num ELSE P!Prod(c.tile)
Ok(c) == CASE c.kind = "topo" -> TopoOk(c) [] c.kind = "axes" -> AxesOk(c) [] c.kind = "rules" -> RulesOk(c)
           [] c.kind = "loss" -> LossOk(c) [] c.kind = "place" -> PlaceOk(c) [] c.kind = "scale" -> ScaleOk(c)
           [] c.kind = "parts" -> PartsOk(c)
=============================================================================
