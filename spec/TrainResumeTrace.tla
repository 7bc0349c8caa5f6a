-------------------------- MODULE TrainResumeTrace --------------------------
(* Lives of real jobs against TrainResume.  A state is observed as its step  *)
(* and a digest of all its leaves; equal histories must have equal digests.  *)
EXTENDS TrainResume, Json, TLC, Integers
VARIABLES t, l, seen,  \* seen: set of [h, d] observed
          pend         \* a batch was read for the step in progress
tvars == <<vars, t, l, seen, pend>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
SetOf(q) == {q[i] : i \in DOMAIN q}
IsE(e) == l <= Len(H.ev) /\ E.e = e /\ l' = l + 1 /\ t' = t
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ seen = {} /\ pend = 0
         /\ up = FALSE /\ hist = <<>> /\ pos = 0 /\ disk = [s \in {} |-> 0] /\ deaths = 0 /\ loaded = 0
\* `disk` remembers the states of all steps reached; `have` tells which exist.
Observe(h, d) == /\ \A x \in seen : x.h = h => x.d = d
                 /\ seen' = seen \cup {[h |-> h, d |-> d]}
Reach(h, p) == [s \in DOMAIN disk \cup {Len(h)} |->
                  IF s = Len(h) THEN [hist |-> h, pos |-> p] ELSE disk[s]]
TBegin == /\ IsE("begin") /\ ~up /\ up' = TRUE /\ pend' = 0
          /\ IF DOMAIN disk = {} THEN hist' = Other(H.warm) /\ pos' = 0
             ELSE LET c == disk[Max(DOMAIN disk)]
                  IN hist' = c.hist /\ pos' = IF H.save_dataset THEN c.pos ELSE 0
          /\ loaded' = Len(hist') /\ E.s = Len(hist')
          /\ Observe(hist', E.d)
          /\ disk' = Reach(hist', pos') /\ UNCHANGED deaths
TBatch == /\ IsE("batch") /\ up /\ E.i = pos + pend /\ pend' = pend + 1
          /\ UNCHANGED <<vars, seen>>
\* The steps of a chunk have been applied.
Steps(n) == hist \o [i \in 1..n |-> [batch |-> pos + i - 1, rng |-> Len(hist) + i - 1]]
TAt == /\ IsE("at") /\ up /\ pend >= 1
       /\ hist' = Steps(pend) /\ pos' = pos + pend /\ pend' = 0
       /\ E.s = Len(hist') /\ Observe(hist', E.d)
       /\ disk' = Reach(hist', pos')
       /\ UNCHANGED <<up, deaths, loaded>>
\* Interrupted inside a chunk, with or without an emergency checkpoint of the
\* steps applied so far.
TDie == /\ IsE("die") /\ up /\ up' = FALSE /\ pend' = 0 /\ hist' = <<>> /\ pos' = 0
        /\ disk' = Reach(Steps(pend), pos + pend)
        /\ UNCHANGED <<deaths, loaded, seen>>
TEnd == /\ IsE("end") /\ up /\ pend = 0 /\ up' = FALSE
        /\ E.s = Len(hist) /\ E.r = E.s /\ Observe(hist, E.d)
        /\ hist' = <<>> /\ pos' = 0 /\ UNCHANGED <<disk, deaths, loaded, pend>>
TOff == /\ IsE("off") /\ ~up /\ SetOf(E.have) \subseteq DOMAIN disk
        /\ disk' = [s \in SetOf(E.have) |-> disk[s]]
        /\ UNCHANGED <<up, hist, pos, deaths, loaded, seen, pend>>
TNew == /\ IsE("newdir") /\ ~up /\ disk' = [s \in {} |-> 0]
        /\ UNCHANGED <<up, hist, pos, deaths, loaded, seen, pend>>
TNext == TBegin \/ TBatch \/ TAt \/ TDie \/ TEnd \/ TOff \/ TNew
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
