------------------------------ MODULE CkptTrace ------------------------------
(* Checks recorded histories of the real checkpointer against CkptStore.      *)
EXTENDS CkptStore, Json

VARIABLES t, l
tvars == <<vars, t, l>>

Traces == ndJsonDeserialize("traces.ndjson")
Ev(i) == Traces[i].ev
ToVis(rows) == [s \in {rows[i].s : i \in DOMAIN rows} |->
                  LET r == rows[CHOOSE i \in DOMAIN rows : rows[i].s = s]
                  IN [ok |-> r.ok, ds |-> r.ds, pin |-> r.pin]]
E == Ev(t)[l]
More == l <= Len(Ev(t))
K == Traces[t].keep
KD == Traces[t].keepds
\* "atomic": only atomicity is at stake (C01), retention limits are not judged
Atomic == Traces[t].mode = "atomic"

TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ vis = <<>> /\ phase = "idle" /\ cur = -1 /\ pub = FALSE /\ got = -1

IsE(e) == More /\ E.e = e /\ l' = l + 1 /\ t' = t

TStart == /\ IsE("start") /\ phase = "idle"
          /\ phase' = "saving" /\ cur' = E.s /\ pub' = FALSE /\ UNCHANGED <<vis, got>>

\* a visible change made by the saving job
TVis == /\ IsE("vis") /\ phase = "saving"
        /\ LET w == ToVis(E.st) IN
             /\ vis' = w
             /\ IF Atomic THEN VisStep(vis, w, cur, IF K > 0 THEN 1 ELSE 0, KD)
                ELSE VisStep(vis, w, cur, K, KD)
        /\ pub' = (pub \/ cur \in DOMAIN vis' \ Dom)
        /\ UNCHANGED <<phase, cur, got>>

\* nothing changes while no save runs
TSame == /\ IsE("vis") /\ phase # "saving" /\ ToVis(E.st) = vis
         /\ UNCHANGED vars

\* directories that exist before the recorded history starts
TSetup == /\ IsE("setup") /\ l = 1
          /\ vis' = ToVis(E.st) /\ UNCHANGED <<phase, cur, pub, got>>

TEnd == /\ IsE("end") /\ phase = "saving" /\ E.s = cur
        /\ (\A u \in Dom : u <= cur) => (cur \in Dom /\ vis[cur].ok /\ vis[cur].ds)
        /\ pub \/ cur \in Dom
        /\ ~Atomic /\ pub => Pruned(vis, K) /\ DsPruned(vis, KD)
        /\ phase' = "idle" /\ UNCHANGED <<vis, cur, pub, got>>

\* the save has returned on one host: the checkpoint is there, whole
TRet == /\ IsE("ret") /\ phase = "saving" /\ E.s = cur
        /\ (\A u \in Dom : u <= cur) => (cur \in Dom /\ vis[cur].ok /\ vis[cur].ds)
        /\ UNCHANGED vars

TCrash == /\ IsE("crash") /\ phase' = "down" /\ UNCHANGED <<vis, cur, pub, got>>

TRestore == /\ IsE("restore")
            /\ phase \in {"idle", "down"}
            /\ IF E.s = -1
               THEN E.got = Newest(vis)
               ELSE IF E.s \in Dom
                    THEN vis[E.s].ok /\ vis[E.s].ds => E.got = E.s
                    ELSE E.got = -2
            /\ got' = E.got /\ phase' = "idle" /\ UNCHANGED <<vis, cur, pub>>

TPin == /\ IsE("pin") /\ E.s \in Dom
        /\ vis' = [vis EXCEPT ![E.s].pin = TRUE] /\ UNCHANGED <<phase, cur, pub, got>>
TUnpin == /\ IsE("unpin") /\ E.s \in Dom
          /\ vis' = [vis EXCEPT ![E.s].pin = FALSE] /\ UNCHANGED <<phase, cur, pub, got>>

TNext == TStart \/ TVis \/ TSame \/ TSetup \/ TRet \/ TEnd \/ TCrash \/ TRestore \/ TPin \/ TUnpin
TSpec == TInit /\ [][TNext]_tvars

Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
