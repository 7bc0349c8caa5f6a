------------------------------- MODULE LossMC -------------------------------
(* Small batches under every option: what the loss must satisfy, and the two    *)
(* passes with which the weights of packed examples are summed.                 *)
EXTENDS Loss
CONSTANTS MaxLen, Qs, Modes
VARIABLES row, other, o, i, cum, last, tot, norm, phase
vars == <<row, other, o, i, cum, last, tot, norm, phase>>
(* packings: examples follow each other, ids may skip, padding at the end *)
Packing(s) == /\ \A j \in 1..(Len(s) - 1) : s[j].seg = 0 => s[j + 1].seg = 0
              /\ \A j \in 1..(Len(s) - 1) : s[j + 1].seg # 0 => s[j + 1].seg \in {s[j].seg, s[j].seg + 1}
              /\ s[1].seg \in {0, 1}
              /\ \A j \in DOMAIN s : s[j].seg = 0 => s[j].t = 0 /\ s[j].q = 0
Mk(seg, q, f) == [w |-> IF f THEN <<3, 1>> ELSE <<1, 2>>, c |-> IF f THEN 1 ELSE 0, t |-> IF q = 0 THEN 0 ELSE 1, q |-> q, seg |-> seg]
Init == /\ \E n \in 1..MaxLen : \E segs \in [1..n -> 0..n], qs \in [1..n -> Qs], fs \in [1..n -> BOOLEAN] :
             /\ row = [j \in 1..n |-> Mk(segs[j], IF segs[j] = 0 THEN 0 ELSE qs[j], fs[j])]
             /\ Packing(row)
        /\ other \in {<<Mk(1, 4, TRUE), Mk(0, 0, FALSE)>>, <<Mk(1, 4, FALSE), Mk(1, 2, TRUE)>>}
        /\ o \in [mode : Modes, fn : {3}, fd : {2}, weighted : BOOLEAN, packed : BOOLEAN,
                  sk : {0, 1}, sd : {5}, zd : {0, 10}]
        /\ i = 1 /\ cum = 0 /\ last = 0 /\ tot = <<>> /\ norm = <<>> /\ phase = "sum"
N == Len(row)
Starts(j) == row[j].seg = 0 \/ j = 1 \/ row[j].seg # row[j - 1].seg     \* position 0
Final(j) == row[j].seg # 0 /\ (j = N \/ Starts(j + 1))
(* forward: the running total at the ends of examples, carried on, and differences *)
Forward == /\ phase = "sum" /\ i <= N
           /\ LET c == cum + Quarters(o, row[i])
                  x == IF Final(i) THEN c ELSE 0
                  y == IF x = 0 THEN last ELSE x
              IN cum' = c /\ last' = y /\ tot' = Append(tot, IF i = 1 THEN x ELSE y - last)
           /\ i' = i + 1 /\ UNCHANGED <<row, other, o, norm, phase>>
Turn == /\ phase = "sum" /\ i > N /\ phase' = "back" /\ i' = N /\ last' = 0
        /\ UNCHANGED <<row, other, o, cum, tot, norm>>
Backward == /\ phase = "back" /\ i >= 1
            /\ LET y == IF tot[i] = 0 THEN last ELSE tot[i] IN last' = y /\ norm' = <<y>> \o norm
            /\ i' = i - 1 /\ UNCHANGED <<row, other, o, cum, tot, phase>>
Finish == phase = "back" /\ i = 0 /\ phase' = "done" /\ UNCHANGED <<row, other, o, i, cum, last, tot, norm>>
Next == Forward \/ Turn \/ Backward \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == <>(phase = "done")
Pk == [o EXCEPT !.packed = TRUE]
(* every token is divided by the weight of its example; the others weigh nothing *)
Summed == phase = "done" =>
  \A j \in 1..N : Quarters(o, row[j]) # 0 /\ row[j].seg # 0 => norm[j] = ExWeight(Pk, <<row>>, <<1, row[j].seg>>)
Batch == <<row, other>>
Some == WeightSum(o, Batch) > 0
SetTok(b, r, j, k) == [b EXCEPT ![r][j] = k]
(* tokens without weight do not matter *)
Independent == phase = "done" /\ Some =>
  \A r \in 1..2 : \A j \in DOMAIN Batch[r] : Quarters(o, Batch[r][j]) = 0 =>
    LossOf(o, SetTok(Batch, r, j, [Batch[r][j] EXCEPT !.w = <<7, 1>>, !.c = 1])) = LossOf(o, Batch)
Close(a, b) == Abs(a - b) <= 3
Scale(b, r) == [b EXCEPT ![r] = [j \in DOMAIN b[r] |-> [b[r][j] EXCEPT !.q = 2 * @]]]
(* the mean over tokens or examples does not depend on the scale of weights *)
ScaleFree == phase = "done" /\ Some /\ o.weighted =>
  /\ o.mode = "real" => Close(LossOf(o, Scale(Scale(Batch, 1), 2)), LossOf(o, Batch))
  /\ o.mode = "avg" => Close(LossOf(o, Scale(Batch, 1)), LossOf(o, Batch))
(* a mean of equal losses is that loss; packing examples does not change the mean over examples *)
Unpack == LET ids == {row[j].seg : j \in 1..N} \ {0}
              RECURSIVE Rows(_)
              Rows(S) == IF S = {} THEN <<>> ELSE LET s == CHOOSE s \in S : TRUE IN
                <<SelectSeq(row, LAMBDA k : k.seg = s)>> \o Rows(S \ {s})
          IN Rows(ids)
PackingFree == phase = "done" /\ o.mode = "avg" /\ Unpack # <<>> /\ WeightSum(o, <<row>>) > 0 =>
  Close(LossOf(Pk, <<row>>), LossOf([o EXCEPT !.packed = FALSE], Unpack))
(* the loss lies above its tangent (it is convex without z-loss), and the slopes add up to z-loss's *)
Tangent == phase = "done" =>
  \A j \in 1..N : LET k == row[j] IN
    /\ o.zd = 0 => \A v \in {<<1, 1>>, <<2, 5>>, <<4, 1>>} :
         100 * (TokenLoss(o, [k EXCEPT !.w = v, !.c = 0]) - TokenLoss(o, k)) >=
           -800 + (Slope(o, k, 1) \div 10) * ((Ln(v[1]) - Ln(k.w[1]) - 100000 * k.c) \div 100)
                + (Slope(o, k, 2) \div 10) * ((Ln(v[2]) - Ln(k.w[2]) - 100000 * k.c) \div 100)
    /\ Abs(Slope(o, k, 1) + Slope(o, k, 2) - (IF o.zd = 0 THEN 0 ELSE (2 * LnZ(k)) \div o.zd)) <= 4
=============================================================================
