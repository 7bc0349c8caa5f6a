--------------------------- MODULE CkptBestTrace ---------------------------
(* Histories of a real best-metric checkpointer against CkptBest.            *)
EXTENDS CkptBest, Json
VARIABLES t, l
tvars == <<vars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
SetOf(q) == {q[i] : i \in DOMAIN q}
MetricOf(rows, S) == [s \in S |-> IF \E i \in DOMAIN rows : rows[i].s = s
                                  THEN rows[CHOOSE i \in DOMAIN rows : rows[i].s = s].v ELSE -1]
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ have = {} /\ metric = <<>> /\ pins = {}
         /\ last = [rem |-> {}, before |-> {}] /\ todo = 0
IsE(e) == l <= Len(H.ev) /\ E.e = e /\ l' = l + 1 /\ t' = t
TSave == /\ IsE("save")
         /\ LET all == have \cup {E.s}
                now == SetOf(E.have)
                m == MetricOf(E.m, all)
            IN /\ now \subseteq all
               /\ Allowed(all \ now, all, m, pins, H.keep, H.period, H.maximise, H.knm)
               /\ have' = now /\ metric' = m
               /\ last' = [rem |-> all \ now, before |-> all]
         /\ UNCHANGED <<pins, todo>>
TPin == /\ IsE("pin") /\ pins' = pins \cup {E.s} /\ UNCHANGED <<have, metric, last, todo>>
TNext == TSave \/ TPin
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
