--------------------------------- MODULE Moe ---------------------------------
(* A dense model is trained, made sparse, and trained on (C28).  The loss of an  *)
(* example [id, w, e], e the expert it is routed to, is w times the sum of what  *)
(* its id selects of every parameter: mlp (columns counting once and twice; one  *)
(* copy per expert once sparse), att, router (only when sparse), and of s.       *)
(* scale: per parameter, the factor its gradients are multiplied by.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids, Experts, Rate(_)
VARIABLES sparse, mlp, att, router, s, step, scale
vars == <<sparse, mlp, att, router, s, step, scale>>
RECURSIVE Total(_, _, _)
(* total weight of the examples of id x (-1: any) routed to expert e (-1: any) *)
Total(b, x, e) == IF b = <<>> THEN 0
                  ELSE (IF (x = -1 \/ Head(b).id = x) /\ (e = -1 \/ Head(b).e = e) THEN Head(b).w ELSE 0) + Total(Tail(b), x, e)
Col == {1, 2}
Plain == [mlp |-> 1, att |-> 1, router |-> 1, s |-> 1]
(* one update over a batch: only the gradients of scaled parameters are scaled *)
Step(b) ==
  /\ mlp' = [e \in DOMAIN mlp |-> [x \in Ids |-> [c \in Col |->
               mlp[e][x][c] - Rate(step) * scale.mlp * c * Total(b, x, IF sparse THEN e ELSE -1)]]]
  /\ att' = [x \in Ids |-> att[x] - Rate(step) * scale.att * Total(b, x, -1)]
  /\ router' = IF sparse THEN [x \in Ids |-> [e \in Experts |-> router[x][e] - Rate(step) * scale.router * Total(b, x, e)]] ELSE router
  /\ s' = s - Rate(step) * scale.s * Total(b, -1, -1)
  /\ step' = step + 1
  /\ UNCHANGED <<sparse, scale>>
(* every expert starts as a copy of the dense layer; what the dense model lacks starts afresh *)
Upcycle(fresh, sc) ==
  /\ ~sparse /\ sparse' = TRUE
  /\ mlp' = [e \in Experts |-> mlp[0]]
  /\ router' = fresh /\ scale' = sc
  /\ UNCHANGED <<att, s, step>>
=============================================================================
