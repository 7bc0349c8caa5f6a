-------------------------------- MODULE MoeMC --------------------------------
EXTENDS Moe
CONSTANTS MaxStep, Scales, MaxLen
VARIABLES log, base, from
mvars == <<vars, log, base, from>>
Zero == [x \in Ids |-> [c \in Col |-> 0]]
Ex == [id : Ids, w : 1..2, e : Experts]
Batches == UNION {[1..n -> Ex] : n \in 1..MaxLen}
Init == /\ sparse = FALSE /\ mlp = [e \in {0} |-> Zero] /\ att = [x \in Ids |-> 0] /\ router = <<>> /\ s = 0 /\ step = 0
        /\ scale = Plain /\ log = <<>> /\ base = Zero /\ from = 0
Train == step < MaxStep /\ \E b \in Batches : Step(b) /\ log' = Append(log, b) /\ UNCHANGED <<base, from>>
Spread == /\ \E k \in Scales : Upcycle([x \in Ids |-> [e \in Experts |-> 0]], [Plain EXCEPT !.mlp = k])
          /\ base' = mlp[0] /\ from' = step /\ UNCHANGED log
Next == Train \/ Spread
Spec == Init /\ [][Next]_mvars
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Descent(x, i) == Sum([k \in 1..Len(log) |-> IF k > i THEN Rate(k - 1) * Total(log[k], x, -1) ELSE 0], 1..Len(log))
(* the loss of an example after the change is what it was, wherever it is routed *)
Alike == sparse /\ step = from => \A e \in Experts : mlp[e] = base
(* together the experts move as the one layer would have, times the scale *)
Together == sparse => \A x \in Ids : \A c \in Col :
              Sum([e \in Experts |-> mlp[e][x][c] - base[x][c]], Experts) = -(c * scale.mlp * Descent(x, from))
(* an expert nothing was routed to stays as it was *)
Idle == sparse => \A e \in Experts : (\A k \in (from + 1)..Len(log) : \A i \in DOMAIN log[k] : log[k][i].e # e) => mlp[e] = base
(* the parameters that are not spread over experts never notice *)
Unscaled == \A x \in Ids : att[x] = -Descent(x, 0)
Rates(n) == 1 + (n % 2)
=============================================================================
