------------------------- MODULE RestoreSourceTrace -------------------------
(* Judges of calls and traces of real jobs against RestoreSource.           *)
EXTENDS RestoreSource, Json, TLC
VARIABLES t, l
tvars == <<jvars, evars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
SetOf(q) == {q[i] : i \in DOMAIN q}
IsE(e) == l <= Len(H.ev) /\ E.e = e /\ l' = l + 1 /\ t' = t
TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ own = [s \in {} |-> 0] /\ pre = {} /\ up = FALSE
         /\ value = [root |-> 0, n |-> 0] /\ step = 0
         /\ edir = {} /\ done = {} /\ queue = <<>> /\ eup = FALSE
         /\ visits = [s \in 0..MaxStep |-> 0]
TPre == IsE("pre") /\ pre' = SetOf(E.have) /\ UNCHANGED <<own, up, value, step, evars>>
TBegin == /\ IsE("begin") /\ Start(E.mode, E.spec)
          /\ step' = E.s /\ value' = [root |-> E.root, n |-> E.n] /\ UNCHANGED evars
\* The job ends (or dies); own directory as listed.
TOff == /\ IsE("off") /\ up' = FALSE
        /\ own' = [s \in SetOf(E.have) |-> IF s \in DOMAIN own THEN own[s] ELSE value]
        /\ UNCHANGED <<pre, value, step, evars>>
\* Refused: nothing to restore from the given place.
TRefused == /\ IsE("refused") /\ ~up /\ DOMAIN own = {}
            /\ E.mode = "specific" /\ E.spec \notin pre
            /\ UNCHANGED <<jvars, evars>>
TEdir == IsE("edir") /\ ~eup /\ edir' = SetOf(E.have) /\ UNCHANGED <<jvars, done, queue, eup, visits>>
TEStart == /\ IsE("estart") /\ ~eup /\ eup' = TRUE
           /\ queue' = IF E.mode = "all" THEN Asc(edir \ done)
                       ELSE IF E.mode = "latest" THEN IF edir = {} THEN <<>> ELSE <<Max(edir)>>
                       ELSE E.want
           /\ UNCHANGED <<jvars, edir, done, visits>>
\* v: the value found in the checkpoint that was given to the evaluator
TVisit == /\ IsE("visit") /\ eup /\ queue # <<>> /\ E.s = Head(queue) /\ E.v = E.s
          /\ visits' = Visits(E.s)
          /\ IF E.die THEN /\ eup' = FALSE /\ queue' = <<>> /\ done' = done
                      ELSE /\ eup' = eup /\ queue' = Tail(queue) /\ done' = done \cup {E.s}
          /\ UNCHANGED <<jvars, edir>>
TEDie == IsE("edie") /\ eup /\ eup' = FALSE /\ queue' = <<>> /\ UNCHANGED <<jvars, edir, done, visits>>
TEEnd == IsE("eend") /\ eup /\ queue = <<>> /\ eup' = FALSE /\ UNCHANGED <<jvars, edir, done, queue, visits>>
TNext == TPre \/ TBegin \/ TOff \/ TRefused \/ TEdir \/ TEStart \/ TVisit \/ TEDie \/ TEEnd
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
