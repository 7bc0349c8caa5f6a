--------------------------- MODULE EarlyStopTrace ---------------------------
(* Histories of metrics given to the real actions, against EarlyStop.  H.acts  *)
(* are the actions in order; an event is one call of the actions of a mode     *)
(* with the metrics of all tasks, and whether it asked to stop.                *)
EXTENDS EarlyStop, Json, TLC
VARIABLES t, l, hist
tvars == <<vars, t, l, hist>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
NA == Len(H.acts)
Of(a, e) == {i \in DOMAIN e.metrics : e.metrics[i].task = a.task /\ e.metrics[i].metric = a.metric}
Has(a, e, types) == \E i \in Of(a, e) : e.metrics[i].type \in types
M(a, e) == e.metrics[CHOOSE i \in Of(a, e) : TRUE]
Counts(a, e) == a.on = e.mode /\ a.kind = "patience" /\ Has(a, e, {"scalar", "float"})
Grown(i, e) == IF Counts(H.acts[i], e) THEN Append(hist[i], M(H.acts[i], e).val) ELSE hist[i]
Fires(i, e) ==
  LET a == H.acts[i] IN
  /\ a.on = e.mode
  /\ IF a.kind = "nan" THEN Has(a, e, {"scalar"}) /\ M(a, e).nonfinite
     ELSE Counts(a, e) /\ Stale(a.dir, a.atol, a.rtol, a.patience, Grown(i, e))
TInit == t \in 1..Len(Traces) /\ l = 1 /\ hist = [i \in 1..NA |-> <<>>] /\ Init
TEval == /\ l <= Len(H.ev) /\ l' = l + 1 /\ t' = t
         /\ E.stop = (\E i \in 1..NA : Fires(i, E))
         /\ hist' = [i \in 1..NA |-> Grown(i, E)]
         /\ UNCHANGED vars
TSpec == TInit /\ [][TEval]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
