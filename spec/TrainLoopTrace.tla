--------------------------- MODULE TrainLoopTrace ---------------------------
(* Histories of real train() runs against TrainLoop.                         *)
EXTENDS TrainLoop, Json, Integers
VARIABLES t, l
tvars == <<vars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
SetOf(q) == {q[i] : i \in DOMAIN q}
TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ cfg = [H.cfg EXCEPT !.listed = SetOf(@), !.acts = SetOf(@)]
         /\ disk = {} /\ pc = "off" /\ first = 0 /\ step = 0 /\ left = 0
         /\ due = {} /\ stop = FALSE /\ runs = 0 /\ done = {}
IsE(e) == l <= Len(H.ev) /\ E.e = e /\ l' = l + 1 /\ t' = t
\* Summaries of training metrics: one per chunk, in order, up to the last step.
SumsOk(q, f, s) ==
  /\ \A i \in 1..Len(q) : q[i] > (IF i = 1 THEN f ELSE q[i - 1])
  /\ s > f => Len(q) > 0 /\ q[Len(q)] = s
TNext ==
  \/ IsE("start") /\ Start
  \/ IsE("invalid") /\ ~Valid(cfg) /\ UNCHANGED vars
  \/ IsE("reject") /\ Reject
  \/ IsE("chunk") /\ E.s = step /\ Chunk(E.n)
  \/ IsE("step") /\ E.s = step /\ Step
  \/ IsE("save") /\ E.s = step /\ Save
  \/ IsE("eval") /\ E.s = step /\ Eval(E.kind)
  \/ IsE("act") /\ E.s = step /\ Act(E.mode, E.r)
  \/ IsE("preempt") /\ Preempt
  \/ IsE("preempted") /\ Preempted
  \/ IsE("crash") /\ Crash
  \/ IsE("end") /\ E.s = step /\ E.state = step /\ E.gc /\ SumsOk(E.sums, first, step) /\ End
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
