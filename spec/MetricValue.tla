---------------------------- MODULE MetricValue ----------------------------
(***************************************************************************)
(* What a reported metric means (C10): a fraction [num, den] of quantities *)
(* summed over all rows of the interval, or the last value.  Judges the    *)
(* values reported by the real code for rows that were grouped and merged  *)
(* in some way.  A row has x (a number), toks (target tokens with hit,     *)
(* mask, loss, z) and ids (segment ids per feature).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
Over(rows, f(_)) == SumSeq([i \in DOMAIN rows |-> f(rows[i])])
Toks(rows, f(_)) == Over(rows, LAMBDA r : SumSeq([j \in DOMAIN r.toks |-> f(r.toks[j])]))
One(x) == 1
NonZero(q) == SumSeq([i \in DOMAIN q |-> IF q[i] # 0 THEN 1 ELSE 0])
Examples(q) == Cardinality({q[i] : i \in DOMAIN q} \ {0})

\* name -> <<numerator, denominator>> of the metrics every model reports.
Base(c) ==
  LET R == c.rows
      n == Len(R)
      tok == Toks(R, One)
      msk == Toks(R, LAMBDA k : k.mask)
      loss == Toks(R, LAMBDA k : k.loss)
      z == Toks(R, LAMBDA k : k.z)
      inn == Over(R, LAMBDA r : NonZero(r.inputs))
      tgt == Over(R, LAMBDA r : NonZero(r.targets))
      plain ==
        [name \in {"accuracy", "loss", "loss_per_nonpadding_target_token", "loss_per_all_target_tokens",
                   "timing/seqs_per_second", "timing/steps_per_second", "timing/seconds", "timing/seqs",
                   "timing/seqs_per_second_per_core", "timing/target_tokens_per_second",
                   "timing/target_tokens_per_second_per_core", "non_padding_fraction/loss_weights",
                   "x/sum", "x/per_step", "x/mean", "x/rate", "x/last"} |->
         CASE name = "accuracy" -> <<Toks(R, LAMBDA k : k.mask * k.hit), msk>>
           [] name = "loss" -> <<loss, c.steps>>
           [] name = "loss_per_nonpadding_target_token" -> <<loss, msk>>
           [] name = "loss_per_all_target_tokens" -> <<loss, tok>>
           [] name = "timing/seqs_per_second" -> <<n, c.duration>>
           [] name = "timing/steps_per_second" -> <<c.steps, c.duration>>
           [] name = "timing/seconds" -> <<c.duration, 1>>
           [] name = "timing/seqs" -> <<n, 1>>
           [] name = "timing/seqs_per_second_per_core" -> <<n, c.duration * c.devices>>
           [] name = "timing/target_tokens_per_second" -> <<tok, c.duration>>
           [] name = "timing/target_tokens_per_second_per_core" -> <<tok, c.duration * c.devices>>
           [] name = "non_padding_fraction/loss_weights" -> <<msk, tok>>
           [] name = "x/sum" -> <<Over(R, LAMBDA r : r.x), 1>>
           [] name = "x/per_step" -> <<Over(R, LAMBDA r : r.x), c.steps>>
           [] name = "x/mean" -> <<Over(R, LAMBDA r : r.x), n>>
           [] name = "x/rate" -> <<Over(R, LAMBDA r : r.x), c.duration>>
           [] name = "x/last" -> <<R[n].x, 1>>]
      zs ==
        [name \in {"z_loss", "z_loss_per_all_target_tokens", "cross_ent_loss",
                   "cross_ent_loss_per_all_target_tokens"} |->
         CASE name = "z_loss" -> <<z, c.steps>>
           [] name = "z_loss_per_all_target_tokens" -> <<z, tok>>
           [] name = "cross_ent_loss" -> <<loss - z, c.steps>>
           [] name = "cross_ent_loss_per_all_target_tokens" -> <<loss - z, tok>>]
      inLen == Over(R, LAMBDA r : Len(r.inputs))
      tgLen == Over(R, LAMBDA r : Len(r.targets))
      packed ==
        [name \in {"effective_batch_size/targets", "non_padding_fraction/targets", "non_padding_fraction/overall"} |->
         CASE name = "effective_batch_size/targets" -> <<Over(R, LAMBDA r : Examples(r.targets)), c.steps>>
           [] name = "non_padding_fraction/targets" -> <<tgt, tgLen>>
           [] name = "non_padding_fraction/overall" -> <<inn + tgt, inLen + tgLen>>]
      packedIn ==
        [name \in {"effective_batch_size/inputs", "non_padding_fraction/inputs"} |->
         CASE name = "effective_batch_size/inputs" -> <<Over(R, LAMBDA r : Examples(r.inputs)), c.steps>>
           [] name = "non_padding_fraction/inputs" -> <<inn, inLen>>]
      Join(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN f THEN f[k] ELSE g[k]]
      a == IF c.zloss THEN Join(plain, zs) ELSE plain
      b == IF c.packed THEN Join(a, packed) ELSE a
  IN IF c.packed /\ inLen > 0 THEN Join(b, packedIn) ELSE b
Same(v, w) == w[2] # 0 => v[2] # 0 /\ v[1] * w[2] = w[1] * v[2]
Ok(c) ==
  LET exp == Base(c) IN
  /\ \A name \in DOMAIN exp : name \in DOMAIN c.vals /\ Same(c.vals[name], exp[name])
  \* what is returned is what is written, once, for the step that was asked for
  /\ c.written = c.vals /\ c.writes = 1 /\ c.step = c.asked
\* A trainer call: examples of all batches (weighted), label of the summary.
TrainerOk(c) ==
  LET W(b) == SumSeq([i \in DOMAIN b |-> b[i].w])
      I(b) == SumSeq([i \in DOMAIN b |-> b[i].w * b[i].id])
  IN /\ c.writes = <<c.step>>
     \* the rate of the last step, of a schedule that gives s + 1 at step s
     /\ c.lr = c.step
     /\ c.weight = SumSeq([i \in DOMAIN c.batches |-> W(c.batches[i])])
     /\ c.idsum = SumSeq([i \in DOMAIN c.batches |-> I(c.batches[i])])
     /\ c.average = SumSeq([i \in DOMAIN c.batches |-> c.factor * W(c.batches[i])])
=============================================================================
