------------------------------- MODULE MoeTrace -------------------------------
(* Real histories against Moe.  H.rate: the schedule's table. *)
EXTENDS Moe, Json, TLC
VARIABLES t, l
tvars == <<vars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
RateOf(k) == H.rate[k + 1]
MaxExpert == 7
IsE(op) == l <= Len(H.ev) /\ E.op = op /\ l' = l + 1 /\ t' = t
Mat(q) == [x \in Ids |-> [c \in Col |-> q[x + 1][c]]]
Vec(q) == [x \in Ids |-> q[x + 1]]
Rows(q) == [x \in Ids |-> [e \in 0..(H.experts - 1) |-> q[x + 1][e + 1]]]
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ sparse = FALSE /\ mlp = [e \in {0} |-> Mat(H.start.mlp)]
         /\ att = Vec(H.start.att) /\ router = <<>> /\ s = H.start.s /\ step = H.step /\ scale = Plain
(* the same as Moe, over the experts of this history *)
Seen == LET P == E.after IN
  /\ mlp' = [e \in DOMAIN mlp' |-> Mat(P.mlp[e + 1])] /\ Len(P.mlp) = Cardinality(DOMAIN mlp')
  /\ att' = Vec(P.att) /\ s' = P.s /\ step' = P.step
  /\ sparse' => router' = Rows(P.router)
RECURSIVE Steps(_, _)
(* parameters after several batches *)
Steps(p, bs) ==
  IF bs = <<>> THEN p ELSE LET b == Head(bs) R == RateOf(p.step) IN
  Steps([mlp |-> [e \in DOMAIN p.mlp |-> [x \in Ids |-> [c \in Col |->
                   p.mlp[e][x][c] - R * scale.mlp * c * Total(b, x, IF sparse THEN e ELSE -1)]]],
         att |-> [x \in Ids |-> p.att[x] - R * scale.att * Total(b, x, -1)],
         router |-> IF sparse THEN [x \in Ids |-> [e \in DOMAIN p.router[x] |-> p.router[x][e] - R * scale.router * Total(b, x, e)]] ELSE p.router,
         s |-> p.s - R * scale.s * Total(b, -1, -1), step |-> p.step + 1], Tail(bs))
TTrain == /\ IsE("train")
          /\ \E q \in {Steps([mlp |-> mlp, att |-> att, router |-> router, s |-> s, step |-> step], E.batches)} :
               mlp' = q.mlp /\ att' = q.att /\ router' = q.router /\ s' = q.s /\ step' = q.step
          /\ UNCHANGED <<sparse, scale>> /\ Seen
          /\ E.weight = [i \in DOMAIN E.batches |-> Total(E.batches[i], -1, -1)]
TUpcycle == /\ IsE("upcycle") /\ ~sparse /\ sparse' = TRUE /\ mlp' = [e \in 0..(H.experts - 1) |-> mlp[0]]
            /\ router' = Rows(H.fresh) /\ scale' = H.scale /\ UNCHANGED <<att, s, step>> /\ Seen
            (* optimizer states: those per expert are copied, the others are as they were *)
            /\ E.states
(* another shape than the dense layer has: nothing is restored *)
TRefused == IsE("refused") /\ ~sparse /\ E.otherwidth /\ UNCHANGED vars
TNext == TTrain \/ TUpcycle \/ TRefused
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
