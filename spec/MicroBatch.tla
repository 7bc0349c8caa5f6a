----------------------------- MODULE MicroBatch -----------------------------
(***************************************************************************)
(* One training step over a batch in m micro-batches (C09).                *)
(*                                                                         *)
(* A batch is a sequence of [id, w]; the loss is the weighted sum of one   *)
(* parameter per example id, so the gradient of parameter x is the total   *)
(* weight of the examples with that id.  The scheduled learning rate of    *)
(* step s is Rate(s).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids, Rate(_)
Sum(f, S) == LET RECURSIVE G(_)
                 G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + G(T \ {x})
             IN G(S)
Grad(b) == [x \in Ids |-> Sum([i \in DOMAIN b |-> IF b[i].id = x THEN b[i].w ELSE 0], DOMAIN b)]
Weight(b) == Sum([i \in DOMAIN b |-> b[i].w], DOMAIN b)
Update(p, g, s) == [x \in Ids |-> p[x] - Rate(s) * g[x]]
CONSTANTS MaxLen, MaxSteps
VARIABLES param, step, batch, m, next, acc, calls, wsum, updates, refused, log
vars == <<param, step, batch, m, next, acc, calls, wsum, updates, refused, log>>
Zero == [x \in Ids |-> 0]
Init == /\ param = Zero /\ step = 0 /\ batch = <<>> /\ m = 0 /\ next = 0 /\ acc = Zero
        /\ calls = 0 /\ wsum = 0 /\ updates = 0 /\ refused = FALSE /\ log = <<>>
Ex == [id : Ids, w : 0..1]
Take == /\ m = 0 /\ step < MaxSteps
        /\ \E n \in 1..MaxLen : \E b \in [1..n -> Ex] : \E k \in 1..n :
             IF n % k = 0 THEN /\ batch' = b /\ m' = k /\ next' = 0 /\ acc' = Zero /\ wsum' = 0
                               /\ calls' = 0 /\ refused' = FALSE
             ELSE refused' = TRUE /\ UNCHANGED <<batch, m, next, acc, wsum, calls>>
        /\ UNCHANGED <<param, step, updates, log>>
Slice == LET len == Len(batch) \div m IN SubSeq(batch, next * len + 1, (next + 1) * len)
Micro == /\ m > 0 /\ next < m
         /\ acc' = [x \in Ids |-> acc[x] + Grad(Slice)[x]]
         /\ wsum' = wsum + Weight(Slice) /\ calls' = calls + 1 /\ next' = next + 1
         /\ UNCHANGED <<param, step, batch, m, updates, refused, log>>
Apply == /\ m > 0 /\ next = m
         /\ param' = Update(param, acc, step) /\ step' = step + 1 /\ updates' = updates + 1
         /\ log' = Append(log, batch) /\ m' = 0 /\ batch' = <<>>
         /\ UNCHANGED <<next, acc, calls, wsum, refused>>
Next == Take \/ Micro \/ Apply
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
FullBatch == m > 0 /\ next = m => acc = Grad(batch) /\ wsum = Weight(batch) /\ calls = m
OneUpdate == updates = step /\ Len(log) = step
Descent == param = [x \in Ids |-> -Sum([s \in DOMAIN log |-> Rate(s - 1) * Grad(log[s])[x]], DOMAIN log)]
=============================================================================
