--------------------------- MODULE MicroBatchTrace ---------------------------
(* Real training steps against MicroBatch.  H.rate is the schedule's table.   *)
EXTENDS MicroBatch, Json, TLC
VARIABLES t, l, draws, mut
tvars == <<vars, t, l, draws, mut>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
SetOf(q) == {q[i] : i \in DOMAIN q}
RateOf(s) == H.rate[s + 1]
IsE(e) == l <= Len(H.ev) /\ E.e = e /\ l' = l + 1 /\ t' = t
Vec(q) == [x \in Ids |-> q[x + 1]]
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ draws = {} /\ mut = 0
         /\ param = Vec(H.start) /\ step = H.step /\ batch = <<>> /\ m = 0 /\ next = 0 /\ acc = Zero
         /\ calls = 0 /\ wsum = 0 /\ updates = 0 /\ refused = FALSE /\ log = <<>>
RECURSIVE After(_, _, _)
After(p, s, bs) ==
  IF bs = <<>> THEN p
  ELSE After([x \in Ids |-> p[x] - RateOf(s) * Grad(Head(bs))[x]], s + 1, Tail(bs))
Total(f(_), bs) == Sum([i \in DOMAIN bs |-> f(bs[i])], DOMAIN bs)
IdSum(b) == Sum([i \in DOMAIN b |-> b[i].w * b[i].id], DOMAIN b)
\* One call of the trainer over the batches E.batches.
TTrain == LET n == Len(E.batches) IN
  /\ IsE("train") /\ \A i \in 1..n : Len(E.batches[i]) % E.m = 0
  /\ param' = Vec(E.param) /\ param' = After(param, step, E.batches)
  /\ step' = step + n /\ E.step = step'
  \* the optimizer was applied once per step, with the scheduled rate
  /\ \A s \in step..(step' - 1) : E.rates[s + 1] = RateOf(s) /\ E.applied[s + 1] = 1
  /\ \A s \in step'..(Len(E.rates) - 1) : E.applied[s + 1] = 0
  \* metrics over all examples of the chunk
  /\ E.weight = Total(Weight, E.batches) /\ E.idsum = Total(IdSum, E.batches)
  /\ E.lr = RateOf(step' - 1)
  \* mutable variables went through every micro-batch, each with its own
  \* randomness
  /\ IF E.mutables
     THEN /\ mut' = mut + Total(IdSum, E.batches) /\ E.mut = mut'
          /\ Len(E.draws) = n * E.m
          /\ Cardinality(SetOf(E.draws)) = Len(E.draws)
          /\ SetOf(E.draws) \cap draws = {}
          /\ draws' = draws \cup SetOf(E.draws)
     ELSE UNCHANGED <<mut, draws>>
  /\ UNCHANGED <<batch, m, next, acc, calls, wsum, updates, refused, log>>
\* A micro-batch count that does not divide the batch: nothing happened.
TRefused == /\ IsE("refused") /\ E.n % E.m # 0 /\ Vec(E.param) = param /\ E.step = step
            /\ UNCHANGED <<vars, draws, mut>>
TNext == TTrain \/ TRefused
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
