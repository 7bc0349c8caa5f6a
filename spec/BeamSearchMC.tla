---------------------------- MODULE BeamSearchMC -----------------------------
(* Stopping when no live hypothesis can displace a finished one never changes   *)
(* the answer; with a beam as wide as the search space the best sequence is     *)
(* found; live and finished hypotheses are distinct and follow the model.       *)
EXTENDS BeamSearch
CONSTANTS Calls, RowsOf
VARIABLES c, r, s, p, stopped
vars == <<c, r, s, p, stopped>>
Init == /\ c \in Calls /\ r \in RowsOf
        /\ s = Start(c, r) /\ p = r.start + 1 /\ stopped = FALSE
More == p <= Last(c, r) /\ ~stopped
Advance == More /\ s' = Step(c, r, s, p) /\ p' = p + 1 /\ UNCHANGED <<c, r, stopped>>
Stop == More /\ Settled(c, s) /\ stopped' = TRUE /\ UNCHANGED <<c, r, s, p>>
Next == Advance \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Seqs(ys) == {y.seq : y \in ys}
StopHarmless == stopped /\ ~Run(c, r).blur => Seqs(s.fin) = Seqs(Run(c, r).fin)
(* all finished sequences *)
RECURSIVE Grow(_, _)
Grow(ys, q) == IF q > Last(c, r) THEN {}
               ELSE IF Forced(c, r, q) THEN Grow({Force(c, r, y) : y \in ys}, q + 1)
               ELSE LET e == UNION {Extend(c, r, y) : y \in ys} IN
                    {y \in e : Finished(c, y)} \cup Grow({y \in e : ~Finished(c, y)}, q + 1)
Every == Grow({Root(c, r)}, r.start + 1)
Wide == c.beams >= 8
WideFindsBest == (p > Last(c, r) /\ Wide) =>
  \A y \in Every : \E x \in s.fin : ~BetterScore(c, y, x)
Sound == /\ Cardinality(s.live) <= c.beams \/ s.blur
         /\ \A x, y \in s.live \cup s.fin : x # y => x.seq # y.seq
         /\ \A y \in s.fin : \E z \in Every : z = y
         /\ \A y \in s.live : \A q \in DOMAIN y.seq : y.seq[q] # c.eos \/ Forced(c, r, q) \/ q <= r.start
Ends == <>(p > Last(c, r) \/ stopped)
=============================================================================
