---------------------------- MODULE GcGuardTrace ----------------------------
(* Real guarded imports and regions.  Every event carries whether collection  *)
(* is on right after it.                                                      *)
EXTENDS GcGuard, Json, TLC
VARIABLES t, l
tvars == <<vars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
TInit == t \in 1..Len(Traces) /\ l = 1 /\ on = H.on /\ stack = <<>> /\ guard = H.guard /\ user = FALSE
TNext == /\ l <= Len(H.ev) /\ l' = l + 1 /\ t' = t
         /\ CASE E.e = "import" -> Enter(guard)
              [] E.e = "region" -> Enter(TRUE)
              [] E.e = "leave" -> Leave
              [] E.e = "enable" -> Set(TRUE)
              [] E.e = "disable" -> Set(FALSE)
              [] E.e = "install" -> IF E.wanted THEN Install ELSE UNCHANGED vars
         /\ on' = E.on
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
