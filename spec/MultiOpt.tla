------------------------------- MODULE MultiOpt -------------------------------
(* Several optimizers over one tree of parameters.  Selects[p] is the set of     *)
(* optimizers whose selector matches p; two of them for one parameter is an      *)
(* error.  Optimizer i updates its parameters with its hyper-parameters (those   *)
(* it was made with, or the ones overridden for the step) and a state of its     *)
(* own per parameter: [n, acc, at], the updates applied, a digest of the         *)
(* gradients seen and the step of the last update.                               *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Params, Opts, Grads, Rates, MaxStep, Cap
VARIABLES selects, phase, step, par, st, alone
vars == <<selects, phase, step, par, st, alone>>
NoState == [n |-> -1, acc |-> 0, at |-> 0]
Fresh == [n |-> 0, acc |-> 0, at |-> -1]
Matched(sel, p) == sel[p] # {}
Owner(sel, p) == CHOOSE i \in sel[p] : TRUE
Overlap(sel) == \E p \in DOMAIN sel : Cardinality(sel[p]) > 1
(* one update of one parameter *)
Value(hp, x, g, s) == x - hp.lr * g - hp.decay * (s % 3)
State(q, g, s) == [n |-> q.n + 1, acc |-> (3 * q.acc + g) % 101, at |-> s]
NewPar(sel, hps, ps, gs, s) ==
  [p \in DOMAIN sel |-> IF Matched(sel, p) THEN Value(hps[Owner(sel, p)], ps[p], gs[p], s) ELSE ps[p]]
NewState(sel, ss, gs, s) == [p \in DOMAIN sel |-> IF Matched(sel, p) THEN State(ss[p], gs[p], s) ELSE NoState]
FirstState(sel) == [p \in DOMAIN sel |-> IF Matched(sel, p) THEN Fresh ELSE NoState]
(* an override of the learning rate reaches every optimizer *)
Hyper(own, over, rate) == IF over = "rate" THEN [own EXCEPT !.lr = rate] ELSE own

Own(i) == [lr |-> i, decay |-> i % 2]
Init == /\ selects \in [Params -> SUBSET Opts]
        /\ phase = "new" /\ step = 0 /\ par = [p \in Params |-> 10]
        /\ st = [p \in Params |-> NoState]
        /\ alone = [i \in Opts |-> [p \in Params |-> [v |-> 10, q |-> Fresh]]]
Create == /\ phase = "new"
          /\ phase' = IF Overlap(selects) THEN "refused" ELSE "run"
          /\ st' = IF Overlap(selects) THEN st ELSE FirstState(selects)
          /\ UNCHANGED <<selects, step, par, alone>>
Update == /\ phase = "run" /\ step < MaxStep
          /\ \E gs \in [Params -> Grads], rate \in Rates, over \in {"none", "rate"} :
               LET hps == [i \in Opts |-> Hyper(Own(i), over, rate)] IN
               /\ par' = NewPar(selects, hps, par, gs, step)
               /\ st' = NewState(selects, st, gs, step)
               /\ alone' = [i \in Opts |-> [p \in Params |->
                     [v |-> Value(hps[i], alone[i][p].v, gs[p], step), q |-> State(alone[i][p].q, gs[p], step)]]]
          /\ step' = step + 1 /\ UNCHANGED <<selects, phase>>
Next == Create \/ Update
Spec == Init /\ [][Next]_vars
Separate == phase = "run" => \A p \in Params :
              IF Matched(selects, p)
              THEN LET i == Owner(selects, p) IN par[p] = alone[i][p].v /\ st[p] = alone[i][p].q /\ st[p].n = step
              ELSE par[p] = 10 /\ st[p] = NoState
Refused == phase = "run" => ~Overlap(selects)
=============================================================================
