------------------------------ MODULE OptaxWrapMC ------------------------------
(* A job with an optimizer of two parameters, saved and restored at any point;   *)
(* beside it, jobs that train each parameter alone.                              *)
EXTENDS OptaxWrap
CONSTANTS Steps, Grads, Wide
VARIABLES o, job, alone, saved, hist
vars == <<o, job, alone, saved, hist>>
S == {"a", "b"}
R(k, c, d, of, on) == [k |-> k, c |-> c, d |-> d, of |-> of, on |-> on]
Leaves == {R("scale", -1, 0, <<>>, <<>>), R("decay", 1, 0, <<>>, <<>>), R("trace", 2, 0, <<>>, <<>>),
           R("sched", 1, 0, <<>>, <<>>), R("every", 2, 0, <<>>, <<>>)}
          \cup (IF Wide THEN {R("trace", 1, 1, <<>>, <<>>), R("scale", 2, 0, <<>>, <<>>)} ELSE {})
Wraps(P) == {R("steps", 2, 0, <<x>>, <<>>) : x \in P} \cup {R("cond", 1, 0, <<x>>, <<>>) : x \in P}
            \cup {R("mask", 0, 0, <<x>>, <<"a">>) : x \in P}
            \cup {R("multi", 0, 0, <<x, y>>, <<"a">>) : x \in P, y \in P} \cup {R("chain", 0, 0, <<x, y>>, <<>>) : x \in P, y \in P}
Opts == Leaves \cup Wraps(Leaves) \cup (IF Wide THEN {R("steps", 2, 0, <<x>>, <<>>) : x \in Wraps(Leaves)} ELSE {})
Init == /\ o \in Opts /\ job = Begin(o, [s \in S |-> 1]) /\ alone = [s \in S |-> Begin(o, [x \in {s} |-> 1])]
        /\ saved = [on |-> FALSE] /\ hist = <<>>
Train == /\ Len(hist) < Steps
         /\ \E g \in [S -> Grads] :
              /\ job' = Trained(o, job, g, FALSE)
              /\ alone' = [s \in S |-> Trained(o, alone[s], [x \in {s} |-> g[s]], FALSE)]
              /\ hist' = Append(hist, g)
         /\ UNCHANGED <<o, saved>>
Save == ~saved.on /\ saved' = [on |-> TRUE, job |-> job, alone |-> alone, hist |-> hist] /\ UNCHANGED <<o, job, alone, hist>>
Restore == /\ saved.on /\ saved.hist # hist /\ job' = saved.job /\ alone' = saved.alone /\ hist' = saved.hist
           /\ UNCHANGED <<o, saved>>
Next == Train \/ Save \/ Restore
Spec == Init /\ [][Next]_vars
(* what a job is depends only on the gradients it has seen since it began *)
RECURSIVE After(_, _)
After(j, h) == IF h = <<>> THEN j ELSE After(TLCEval(Trained(o, j, Head(h), FALSE)), Tail(h))
Resumes == job = After(Begin(o, [s \in S |-> 1]), hist)
(* no parameter sees another *)
Apart == \A s \in S : /\ job.p[s] = alone[s].p[s]
                      /\ \A x \in DOMAIN alone[s].st : job.st[x] = alone[s].st[x]
Shape == /\ DOMAIN job.st = {x[1] : x \in Places(o, "", S)}
         /\ Cardinality(Places(o, "", S)) = Cardinality(DOMAIN job.st) /\ job.n = Len(hist)
(* accumulating is as good as one step with the sum *)
Sums == (o.k = "steps" /\ (Len(hist) % 2) = 0) =>
          LET half == [i \in 1..(Len(hist) \div 2) |-> [s \in S |-> hist[2 * i - 1][s] + hist[2 * i][s]]]
              RECURSIVE In(_, _)
              In(j, h) == IF h = <<>> THEN j ELSE In(TLCEval(Trained(o.of[1], j, Head(h), FALSE)), Tail(h))
          IN job.p = In(Begin(o.of[1], [s \in S |-> 1]), half).p
=============================================================================
