---------------------------- MODULE InferJobTrace ----------------------------
(* Histories of runs of the real job: what it computed, and what the output and *)
(* the marker looked like after every file operation and at every end.          *)
EXTENDS InferJob, Sequences, Json, TLC
VARIABLES t, l
tvars == <<jvars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
All == {H.rows[i] : i \in DOMAIN H.rows}
Range(s) == {s[i] : i \in DOMAIN s}
Is(op) == l <= Len(H.ev) /\ E.op = op /\ l' = l + 1 /\ t' = t
(* the output: one record per input, in order, each as it should be *)
Whole(out) == out = [i \in DOMAIN H.rows |-> [id |-> H.rows[i], right |-> TRUE]]
TInit == t \in 1..Len(Traces) /\ l = 1 /\ JInit(All)
TStart == Is("start") /\ Start
TInfer == Is("infer") /\ Compute(Range(E.rows))
TLook == Is("look") /\ run /\ (IF E.done THEN Whole(E.out) /\ (done \/ known = all) ELSE ~done)
         /\ done' = E.done /\ UNCHANGED <<all, run, known, settled>>
(* the process is gone at once, or an exception ends it in good order *)
TCrash == Is("crash") /\ Crash
TDie == Is("die") /\ ~done /\ run /\ run' = FALSE /\ settled' = known /\ UNCHANGED <<all, known, done>>
TEnd == Is("end") /\ End /\ Whole(E.out) /\ ~E.changed
TNext == TStart \/ TInfer \/ TLook \/ TCrash \/ TDie \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
