-------------------------- MODULE MetricsQueueTrace --------------------------
(* Recorded histories of a real metrics manager with a slow, failing writer.   *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
VARIABLES t, l, queue, sums, scal, cur, done, err, need, wflushed, wclosed
tvars == <<t, l, queue, sums, scal, cur, done, err, need, wflushed, wclosed>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
None == <<>>
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ queue = <<>> /\ sums = <<>> /\ scal = <<>> /\ cur = None
         /\ done = {} /\ err = FALSE /\ need = {} /\ wflushed = FALSE /\ wclosed = FALSE
IsE(e) == l <= Len(H.ev) /\ E.e = e /\ l' = l + 1 /\ t' = t
TCallEnq == /\ IsE("enq") /\ E.i = Len(sums) + 1
            /\ sums' = Append(sums, [step |-> E.step, vals |-> E.vals]) /\ queue' = Append(queue, E.i)
            /\ UNCHANGED <<scal, cur, done, err, need, wflushed, wclosed>>
Raised == IF E.raised THEN err /\ err' = FALSE ELSE err' = err
TRetEnq == /\ IsE("enqret") /\ Raised
           /\ UNCHANGED <<queue, sums, scal, cur, done, need, wflushed, wclosed>>
TCallScal == /\ IsE("scal") /\ scal' = Append(scal, [step |-> E.step, vals |-> E.vals, st |-> "wait"])
             /\ E.i = Len(scal) + 1
             /\ UNCHANGED <<queue, sums, cur, done, err, need, wflushed, wclosed>>
TRetScal == /\ IsE("scalret") /\ scal[E.i].st = "done"
            /\ UNCHANGED <<queue, sums, scal, cur, done, err, need, wflushed, wclosed>>
\* The writer is called: never two at a time, summaries in their order.
TBegin == /\ IsE("wbegin") /\ cur = None /\ ~wclosed
          /\ \/ /\ queue # <<>> /\ sums[Head(queue)].step = E.step /\ sums[Head(queue)].vals = E.vals
                /\ cur' = <<"sum", Head(queue)>> /\ queue' = Tail(queue) /\ UNCHANGED scal
             \/ \E i \in DOMAIN scal :
                  /\ scal[i].st = "wait" /\ scal[i].step = E.step /\ scal[i].vals = E.vals
                  /\ cur' = <<"scal", i>> /\ scal' = [scal EXCEPT ![i].st = "now"] /\ UNCHANGED queue
          /\ UNCHANGED <<sums, done, err, need, wflushed, wclosed>>
TEnd == /\ IsE("wend") /\ cur # None /\ cur' = None
        /\ IF cur[1] = "sum" THEN /\ done' = done \cup {cur[2]} /\ err' = (err \/ ~E.ok) /\ UNCHANGED scal
           ELSE /\ scal' = [scal EXCEPT ![cur[2]].st = "done"] /\ UNCHANGED <<done, err>>
        /\ UNCHANGED <<queue, sums, need, wflushed, wclosed>>
TResult == /\ IsE("result") /\ E.i \in done /\ E.vals = sums[E.i].vals
           /\ UNCHANGED <<queue, sums, scal, cur, done, err, need, wflushed, wclosed>>
\* Flushing and closing wait for every summary handed over before.
TWait == /\ IsE("wait") /\ need' = 1..Len(sums) /\ wflushed' = FALSE
         /\ UNCHANGED <<queue, sums, scal, cur, done, err, wclosed>>
TWFlush == /\ IsE("wflush") /\ wflushed' = (need \subseteq done) /\ ~wclosed
           /\ UNCHANGED <<queue, sums, scal, cur, done, err, need, wclosed>>
TWClose == /\ IsE("wclose") /\ queue = <<>> /\ cur = None /\ wclosed' = TRUE
           /\ UNCHANGED <<queue, sums, scal, cur, done, err, need, wflushed>>
TWaited == /\ IsE("waited") /\ need \subseteq done /\ E.raised = err /\ err' = FALSE
           /\ IF E.close THEN wclosed ELSE wflushed
           /\ UNCHANGED <<queue, sums, scal, cur, done, need, wflushed, wclosed>>
TNext == TCallEnq \/ TRetEnq \/ TCallScal \/ TRetScal \/ TBegin \/ TEnd \/ TResult \/ TWait \/ TWFlush
         \/ TWClose \/ TWaited
TSpec == TInit /\ [][TNext]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
