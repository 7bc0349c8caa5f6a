--------------------------- MODULE TrainStateTrace ---------------------------
(* Histories of operations on real train states.  An event has the operation,   *)
(* its arguments, and what all states and dictionaries held afterwards.         *)
EXTENDS TrainState, Json, TLC
VARIABLES t, l
tvars == <<vars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
ToSet(s) == {s[i] : i \in DOMAIN s}
TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ states = Traces[t].init /\ dicts = <<>> /\ from = <<>>
Seen == /\ states' = E.states /\ dicts' = E.dicts /\ UNCHANGED from
Q == states[E.i]
R == E.states[Len(E.states)]
Puts(q) == states' = Append(states, q) /\ dicts' = dicts
TDo == /\ l <= Len(H.ev) /\ l' = l + 1 /\ t' = t /\ Seen
       /\ CASE E.op = "dump" -> states' = states /\ dicts' = Append(dicts, DumpOf(Q))
            [] E.op = "edit" -> states' = states /\ dicts' = [dicts EXCEPT ![E.j] = EditOf(@, E.part, E.v)]
            [] E.op = "load" -> Puts(LoadOf(Q, dicts[E.j]))
            [] E.op = "params" -> Puts(WithParams(Q, E.v))
            [] E.op = "mutables" -> Puts(WithMutables(Q, E.v))
            [] E.op = "step" -> Puts(WithStep(Q, E.v))
            [] E.op = "train" -> Puts(R) /\ IsStep(Q, R, E.v)
            [] E.op = "axes" -> /\ states' = states /\ dicts' = dicts
                                /\ E.same
                                /\ AxesOk(ToSet(E.leaves), ToSet(E.axes))
TSpec == TInit /\ [][TDo]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
