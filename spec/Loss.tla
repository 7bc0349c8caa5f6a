-------------------------------- MODULE Loss --------------------------------
(* The training loss in integer arithmetic.  A batch is a sequence of rows of   *)
(* tokens [w |-> weights of the classes, c |-> shift, t |-> target class from 0,*)
(* q |-> weight in quarters, seg |-> packed example, 0 for padding]; the logits *)
(* of a token are ln w[i] + c.  Amounts are in units of 1e-5.                   *)
EXTENDS Integers, Sequences, FiniteSets, LnTable
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
SumSeq(s) == LET f(i) == s[i] IN SumTo(f, Len(s))
(* rounds to the nearest *)
Div(a, b) == (2 * a + b) \div (2 * b)
(* a square of 1e-5 units in 1e-5 units *)
Square(x) == LET y == Abs(x) a == y \div 1000 b == y % 1000
             IN 10 * a * a + (2 * a * b) \div 100 + (b * b) \div 100000

LnZ(k) == Ln(SumSeq(k.w)) + 100000 * k.c
LogProb(k, i) == Ln(k.w[i]) - Ln(SumSeq(k.w))
(* o is the configuration: smoothing sk/sd, z-loss 1/zd (none if 0)             *)
ZLoss(o, k) == IF o.zd = 0 THEN 0 ELSE Div(Square(LnZ(k)), o.zd)
(* cross entropy with the soft target, less the entropy of the soft target      *)
Norm(o, n) == IF o.sk = 0 THEN 0
              ELSE Div((o.sd - o.sk) * (Ln(o.sd - o.sk) - Ln(o.sd)) + o.sk * (Ln(o.sk) - Ln(o.sd) - Ln(n - 1)), o.sd)
CrossEnt(o, k) ==
  LET n == Len(k.w)
      off(i) == IF i = k.t + 1 THEN 0 ELSE -LogProb(k, i)
  IN Div((o.sd - o.sk) * (n - 1) * (-LogProb(k, k.t + 1)) + o.sk * SumTo(off, n), o.sd * (n - 1)) + Norm(o, n)
TokenLoss(o, k) == CrossEnt(o, k) + ZLoss(o, k)

(* the weight of a token in quarters: without given weights, padding (class 0)  *)
(* has none under the special factors, and all tokens count alike otherwise     *)
Special(o) == o.mode \in {"real", "total", "avg"}
Quarters(o, k) == IF o.weighted THEN k.q ELSE IF Special(o) /\ k.t = 0 THEN 0 ELSE 4
RowsOf(b) == DOMAIN b
Size(b) == SumSeq([r \in RowsOf(b) |-> Len(b[r])])
(* the examples of a row: packed ones, or the row itself *)
Examples(o, b) == IF o.packed
                  THEN UNION {{<<r, b[r][j].seg>> : j \in {j \in DOMAIN b[r] : b[r][j].seg # 0}} : r \in RowsOf(b)}
                  ELSE {<<r, 0>> : r \in RowsOf(b)}
InExample(o, b, e, r, j) == e[1] = r /\ (o.packed => b[r][j].seg = e[2])
SumAll(b, f(_)) == SumSeq([r \in RowsOf(b) |-> SumSeq([j \in DOMAIN b[r] |-> f(b[r][j])])])
SumEx(o, b, e, f(_)) == LET g(j) == IF InExample(o, b, e, e[1], j) THEN f(b[e[1]][j]) ELSE 0
                        IN SumTo(g, Len(b[e[1]]))
WeightSum(o, b) == LET q(k) == Quarters(o, k) IN SumAll(b, q)
ExWeight(o, b, e) == LET q(k) == Quarters(o, k) IN SumEx(o, b, e, q)
Counted(o, b) == {e \in Examples(o, b) : ExWeight(o, b, e) > 0}
RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumSet(f, S \ {x})

(* amount per token in, weighted and normalised sum out *)
Total(o, b, amount(_)) ==
  LET weighed(k) == Quarters(o, k) * amount(k)
      s == SumAll(b, weighed)
      mean(e) == Div(SumEx(o, b, e, weighed), ExWeight(o, b, e))
  IN CASE o.mode = "none" -> Div(s, 4)
       [] o.mode = "const" -> Div(Div(s, 4) * o.fd, o.fn)
       [] o.mode = "real" -> Div(s, WeightSum(o, b))
       [] o.mode = "total" -> Div(s, 4 * Size(b))
       [] o.mode = "avg" -> Div(SumSet(mean, Counted(o, b)), Cardinality(Counted(o, b)))
LossOf(o, b) == LET f(k) == TokenLoss(o, k) IN Total(o, b, f)
ZLossOf(o, b) == LET f(k) == ZLoss(o, k) IN Total(o, b, f)

(* the part of one token's amount in the total, as amount * num / den *)
Part(o, b, r, j) ==
  LET q == Quarters(o, b[r][j])
      e == CHOOSE e \in Examples(o, b) : InExample(o, b, e, r, j)
  IN CASE q = 0 -> <<0, 1>>
       [] o.mode = "none" -> <<q, 4>>
       [] o.mode = "const" -> <<q * o.fd, 4 * o.fn>>
       [] o.mode = "real" -> <<q, WeightSum(o, b)>>
       [] o.mode = "total" -> <<q, 4 * Size(b)>>
       [] o.mode = "avg" -> <<q, ExWeight(o, b, e) * Cardinality(Counted(o, b))>>
(* d TokenLoss / d logit i = (1 + 2 z lnZ) p_i - soft target_i *)
Slope(o, k, i) ==
  LET n == Len(k.w)
      zf == IF o.zd = 0 THEN 100000 ELSE 100000 + Div(2 * LnZ(k), o.zd)
      soft == IF i = k.t + 1 THEN Div(100000 * (o.sd - o.sk), o.sd) ELSE Div(100000 * o.sk, o.sd * (n - 1))
  IN Div(zf * k.w[i], SumSeq(k.w)) - soft
Grad(o, b, r, j, i) == LET p == Part(o, b, r, j) IN Div(Slope(o, b[r][j], i) * p[1], p[2])

(* the score of a row: weighted log probability of its targets *)
Score(b, r) == Div(SumSeq([j \in DOMAIN b[r] |-> b[r][j].q * LogProb(b[r][j], b[r][j].t + 1)]), 4)

(* ------------------------------------------------------------- judgements   *)
Near(got, want) == Abs(got - want) <= 8 + Abs(want) \div 4000
OkGrads(c) == \A r \in DOMAIN c.b : \A j \in DOMAIN c.b[r] : \A i \in DOMAIN c.b[r][j].w :
                Near(c.grad[r][j][i], Grad(c.o, c.b, r, j, i))
(* packed examples in the segment ids of a feature; the tokens that are none *)
PackedIn(rows) == SumSeq([r \in DOMAIN rows |-> Cardinality({rows[r][j] : j \in DOMAIN rows[r]} \ {0})])
Filled(rows) == SumSeq([r \in DOMAIN rows |-> Cardinality({j \in DOMAIN rows[r] : rows[r][j] # 0})])
SizeOf(rows) == SumSeq([r \in DOMAIN rows |-> Len(rows[r])])
OkFeature(f) == f.examples = PackedIn(f.ids) /\ Near(f.fraction, Div(100000 * Filled(f.ids), SizeOf(f.ids)))
OkMetrics(c) ==
  LET m == c.metrics IN
  /\ Near(m.loss, LossOf(c.o, c.b)) /\ Near(m.z, ZLossOf(c.o, c.b))
  /\ Near(m.cross, LossOf(c.o, c.b) - ZLossOf(c.o, c.b))
  /\ Near(m.per_token, Div(LossOf(c.o, c.b), Size(c.b)))
  /\ IF Special(c.o) \/ c.o.weighted
     THEN IF c.o.mode = "avg" THEN Near(m.per_weight, Div(LossOf(c.o, c.b), Cardinality(Counted(c.o, c.b))))
          ELSE Near(m.per_weight, Div(4 * LossOf(c.o, c.b), WeightSum(c.o, c.b)))
     ELSE m.per_weight = m.per_token
  /\ \A i \in DOMAIN m.features : OkFeature(m.features[i])
  /\ Near(m.overall, Div(100000 * SumSeq([i \in DOMAIN m.features |-> Filled(m.features[i].ids)]),
                         SumSeq([i \in DOMAIN m.features |-> SizeOf(m.features[i].ids)])))
Ok(c) ==
  CASE c.kind = "error" -> c.raised = c.expect
    [] c.kind = "score" -> \A r \in DOMAIN c.b : Near(c.score[r], Score(c.b, r))
    [] c.kind = "sum" -> /\ Near(c.loss, LossOf(c.o, c.b)) /\ Near(c.z, ZLossOf(c.o, c.b))
                         /\ (c.weights = -1 \/ Near(c.weights, IF c.o.weighted THEN 25000 * WeightSum(c.o, c.b)
                                                               ELSE 100000 * Size(c.b)))
                         /\ OkGrads(c)
    [] c.kind = "model" -> /\ Near(c.loss, LossOf(c.o, c.b)) /\ OkGrads(c) /\ OkMetrics(c)
=============================================================================
