---------------------------- MODULE MultiOptTrace ----------------------------
(* Runs of the real MultiOptimizer.  H.sel[p] lists the optimizers whose         *)
(* selector matches parameter p, H.own their hyper-parameters.  An event is the  *)
(* creation, a step, a round trip through the state dictionary or the derivation *)
(* of axes; with kind "other" the values are numbers of observed contents and    *)
(* an event also carries the contents each optimizer reaches alone.              *)
EXTENDS MultiOpt, Json
VARIABLES t, l
tvars == <<vars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
ToSet(s) == {s[i] : i \in DOMAIN s}
Sel == [p \in DOMAIN H.sel |-> ToSet(H.sel[p])]
TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ selects = [p \in DOMAIN Traces[t].sel |-> ToSet(Traces[t].sel[p])]
         /\ phase = "new" /\ step = 0 /\ par = Traces[t].start /\ st = <<>> /\ alone = <<>>
Hps == [i \in DOMAIN H.own |->
          IF E.over = "all" THEN E.hps[i] ELSE Hyper(H.own[i], E.over, E.rate)]
Alone(p) == E.alone[Owner(selects, p)][p]
Ran == /\ phase' = "run" /\ step' = E.step /\ par' = E.par /\ st' = E.st /\ UNCHANGED <<selects, alone>>
TCreate == /\ E.op = "create" /\ phase = "new"
           /\ IF Overlap(selects)
              THEN E.refused /\ phase' = "refused" /\ UNCHANGED <<selects, step, par, st, alone>>
              ELSE /\ ~E.refused /\ Ran /\ E.step = 0 /\ E.par = par
                   /\ \A p \in DOMAIN selects : IF ~Matched(selects, p) THEN E.st[p] = NoState
                                                ELSE E.st[p] = IF H.kind = "sum" THEN Fresh ELSE Alone(p).st
TStep == /\ E.op = "step" /\ phase = "run" /\ Ran /\ E.step = step + 1
         /\ IF H.kind = "sum"
            THEN E.par = NewPar(selects, Hps, par, E.grads, step) /\ E.st = NewState(selects, st, E.grads, step)
            ELSE \A p \in DOMAIN selects :
                   IF Matched(selects, p) THEN E.par[p] = Alone(p).par /\ E.st[p] = Alone(p).st
                   ELSE E.par[p] = par[p] /\ E.st[p] = NoState
TTrip == E.op = "trip" /\ phase = "run" /\ Ran /\ E.step = step /\ E.par = par /\ E.st = st
TAxes == /\ E.op = "axes" /\ phase = "run" /\ UNCHANGED vars
         /\ E.same
         /\ \A p \in DOMAIN selects : /\ E.axes[p].par = H.names[p]
                                      /\ E.axes[p].st = IF Matched(selects, p)
                                           THEN [i \in DOMAIN E.axes[p].like |->
                                                   IF E.axes[p].like[i] THEN H.names[p] ELSE <<"none">>]
                                           ELSE <<<<"none">>>>
TDo == /\ l <= Len(H.ev) /\ l' = l + 1 /\ t' = t
       /\ (TCreate \/ TStep \/ TTrip \/ TAxes)
TSpec == TInit /\ [][TDo]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
