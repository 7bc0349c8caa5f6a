----------------------------- MODULE OptaxWrapTrace -----------------------------
(* Histories of real train states with Optax optimizers.  An event says what was *)
(* done and what the newest state held: its parameters p, the places of its      *)
(* optimizer state, its step; "axes": the axes of every place.                   *)
EXTENDS OptaxWrap, Json
VARIABLES t, l, job, saved
tvars == <<t, l, job, saved>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
Fun(q) == [x \in {e[1] : e \in Range(q)} |-> (CHOOSE e \in Range(q) : e[1] = x)[2]]
TInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ saved = <<>>
         /\ job = Begin(Traces[t].opt, Fun(Traces[t].params))
Seen(j) == /\ Range(E.p) = {<<s, j.p[s]>> : s \in DOMAIN j.p} /\ Len(E.p) = Cardinality(DOMAIN j.p)
           /\ Range(E.st) = {<<x, j.st[x]>> : x \in DOMAIN j.st} /\ Len(E.st) = Cardinality(DOMAIN j.st)
           /\ E.n = j.n
Names(s) == IF s = "" THEN <<>> ELSE Fun(H.axes)[s]
TDo == /\ l <= Len(H.ev) /\ l' = l + 1 /\ t' = t
       /\ CASE E.op = "train" -> /\ job' = TLCEval(Trained(H.opt, job, Fun(E.g), E.bad)) /\ saved' = saved /\ Seen(job')
            [] E.op = "dump" -> job' = job /\ saved' = Append(saved, job) /\ Seen(job)
            [] E.op = "load" -> job' = saved[E.j] /\ saved' = saved /\ Seen(job')
            (* a dictionary without some place of the state *)
            [] E.op = "lack" -> job' = job /\ saved' = saved /\ E.raised /\ Seen(job)
            [] E.op = "axes" -> /\ job' = job /\ saved' = saved /\ Seen(job)
                                /\ Range(E.axes) = {<<x[1], Names(x[2])>> : x \in Places(H.opt, "", DOMAIN job.p)}
                                /\ Len(E.axes) = Cardinality(Places(H.opt, "", DOMAIN job.p))
TSpec == TInit /\ [][TDo]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
