------------------------------ MODULE CkptBest -------------------------------
(* Best-metric retention.  After a save, with limit Keep, the checkpoints that *)
(* may go are the worst by the monitored metric.  m[s] = -1: no metric known.  *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Steps, Vals, Keep, Period, Maximise, KeepNoMetric

VARIABLES have,   \* visible steps
          metric, \* [step -> value or -1]
          pins,
          last,   \* [rem, before] of the last clean-up
          todo    \* next step number to save
vars == <<have, metric, pins, last, todo>>

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Forced(s, per) == per > 0 /\ s % per = 0

\* `a` should go before (or is as good a choice as) `b`
NoBetter(a, b, m, mx) ==
  IF m[a] = -1 THEN m[b] # -1 \/ a < b
  ELSE m[b] # -1 /\ (IF mx THEN m[a] <= m[b] ELSE m[a] >= m[b])

(* The sets of checkpoints a clean-up may select, given the steps E.          *)
Candidates(E, m, per, knm) ==
  LET l == MaxOf(E)
  IN {s \in E \ {l} : ~Forced(s, per) /\ (knm => m[s] # -1)}
Quota(E, m, keep, per, knm) ==
  LET C == {s \in E : s = MaxOf(E) \/ ~Forced(s, per)}
      q == Cardinality(Candidates(E, m, per, knm)) - keep
  IN IF keep = 0 \/ Cardinality(C) <= keep + 1 \/ q < 0 THEN 0 ELSE q

Selections(E, m, keep, per, mx, knm) ==
  LET C == Candidates(E, m, per, knm)
      q == Quota(E, m, keep, per, knm)
  IN {W \in SUBSET C : Cardinality(W) = q /\
        \A a \in W, b \in C \ W : NoBetter(a, b, m, mx)}

\* R may have been removed by the clean-up after a save, pins P
Allowed(R, E, m, P, keep, per, mx, knm) ==
  E # {} /\ \E W \in Selections(E, m, keep, per, mx, knm) : R = W \ P

Save ==
  /\ todo \in Steps
  /\ LET E == have \cup {todo} IN
     \E W \in Selections(E, metric, Keep, Period, Maximise, KeepNoMetric) :
        /\ have' = E \ (W \ pins)
        /\ last' = [rem |-> W \ pins, before |-> E]
  /\ todo' = todo + 1 /\ UNCHANGED <<metric, pins>>
Evaluate(s, v) ==   \* an evaluation reports the metric of a visible checkpoint
  /\ s \in have /\ metric[s] = -1
  /\ metric' = [metric EXCEPT ![s] = v]
  /\ last' = [rem |-> {}, before |-> {}] /\ UNCHANGED <<have, pins, todo>>
Pin(s) == /\ s \in have /\ s \notin pins /\ pins' = pins \cup {s}
          /\ last' = [rem |-> {}, before |-> {}] /\ UNCHANGED <<have, metric, todo>>

Init == have = {} /\ metric = [s \in Steps |-> -1] /\ pins = {} /\ todo = 0
        /\ last = [rem |-> {}, before |-> {}]
Next == Save \/ (\E s \in Steps, v \in Vals : Evaluate(s, v)) \/ (\E s \in Steps : Pin(s))
Spec == Init /\ [][Next]_vars

Better(a, b) == IF Maximise THEN metric[a] > metric[b] ELSE metric[a] < metric[b]
NewestKept == have # {} => todo - 1 \in have
PinnedKept == pins \subseteq have
ForcedKept == \A s \in last.rem : ~Forced(s, Period)
\* no checkpoint goes while a strictly worse unprotected one stays
BestKept == \A r \in last.rem : \A k \in last.before \ last.rem :
  (k # MaxOf(last.before) /\ k \notin pins /\ ~Forced(k, Period)
     /\ metric[r] # -1 /\ metric[k] # -1) => ~Better(r, k)
\* the best of all steps seen by a clean-up survives it
TopSurvives == last.rem # {} /\ Keep > 0 =>
  LET M == {s \in last.before \ {MaxOf(last.before)} : metric[s] # -1} IN
  M # {} => \E s \in M \ last.rem : \A u \in M : ~Better(u, s)
UnmetricKept == KeepNoMetric => \A r \in last.rem : metric[r] # -1
Bounded == Keep > 0 /\ ~KeepNoMetric /\ last.before # {} =>
  Cardinality({s \in last.before \ last.rem : s \notin pins /\ ~Forced(s, Period)}) <= Keep + 1
=============================================================================
