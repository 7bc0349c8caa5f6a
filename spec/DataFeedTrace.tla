--------------------------- MODULE DataFeedTrace ---------------------------
(* Histories of the real training iterators of all hosts, and of the rows that  *)
(* every device was given.                                                      *)
EXTENDS DataFeed, Json
VARIABLES t, l
tvars == <<dvars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
Slots == 1..H.slots
Is(op) == l <= Len(H.ev) /\ E.op = op /\ l' = l + 1 /\ t' = t
Seen == got' = E.rows
TInit == t \in 1..Len(Traces) /\ l = 1 /\ DInit(H.feed, Slots)
TPeek == Is("peek") /\ Peek /\ Seen
TTake == Is("next") /\ Take /\ Seen
TDry == Is("dry") /\ Dry
TSave == Is("save") /\ Save(E.slot)
TRestore == Is("restore") /\ Restore(E.slot)
TReset == Is("reset") /\ Reset
TNext == TPeek \/ TTake \/ TDry \/ TSave \/ TRestore \/ TReset
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
