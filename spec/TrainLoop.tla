----------------------------- MODULE TrainLoop -----------------------------
(***************************************************************************)
(* The training loop (C07).  A job is a sequence of runs of train() over   *)
(* one output directory; a run starts from the newest saved step (or from  *)
(* scratch), applies one optimizer step per batch in chunks, and owes, at  *)
(* certain steps, checkpoints, evaluations and calls of the user's actions *)
(* before it may go on.  Runs end normally, by a stop request of an        *)
(* action, by preemption (with an emergency checkpoint) or by a crash.     *)
(*                                                                         *)
(* `due` is the set of what the run owes at the current step: "save",      *)
(* "teval" (training evaluation), "ieval" (inference evaluation) and the   *)
(* action modes "TRAIN", "TRAIN_EVAL", "INFER_EVAL".                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Configs,      \* set of configurations (see below)
          MaxRuns

(* A configuration: [init: step of the initial state, total, rel (0: none),*)
(* period, listed (set of steps), evalp, stats, gcp, te, ie, before,       *)
(* conc (metrics computed concurrently), orbax, acts: set of modes with    *)
(* actions].  Periods are 0 when unset.                                    *)
VARIABLES cfg, disk, pc, first, step, left, due, stop, runs,
          done   \* evaluations done in this run: set of [e, s]
vars == <<cfg, disk, pc, first, step, left, due, stop, runs, done>>

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Total(c, f) == IF c.rel > 0 THEN f + c.rel ELSE c.total
EvalPeriod(c) == IF c.te \/ c.ie THEN c.evalp ELSE 0
Periods(c) == {c.period, EvalPeriod(c), c.gcp} \ {0}
\* The documented restriction on configurations.
Valid(c) == Periods(c) = {} \/ \A p \in Periods(c) : p % Min(Periods(c)) = 0

Periodic(c, f, s) == c.period > 0 /\ (s = Total(c, f) \/ (s - f) % c.period = 0)
Listed(c, f, s) == s \in c.listed /\ s > f
SaveAt(c, f, s) == s > f /\ (Periodic(c, f, s) \/ Listed(c, f, s))
EvalAt(c, f, s) == /\ s > f /\ EvalPeriod(c) > 0
                   /\ s = Total(c, f) \/ (s - f) % EvalPeriod(c) = 0
EpochEnd(c, f, s) == s = Total(c, f) \/ \E p \in Periods(c) : (s - f) % p = 0

\* The furthest step a chunk started at s may reach.
Bound(c, f, s) ==
  LET stops == {x \in (s + 1)..Total(c, f) :
                  EpochEnd(c, f, x) \/ SaveAt(c, f, x) \/ EvalAt(c, f, x)}
      b == Min(stops)
  IN IF c.stats > 0 /\ s + c.stats < b THEN s + c.stats ELSE b

If(b, x) == IF b THEN {x} ELSE {}

TypeOK == /\ disk \subseteq Nat /\ pc \in {"off", "bad", "run", "dying"}
          /\ due \subseteq {"save", "teval", "ieval", "TRAIN", "TRAIN_EVAL", "INFER_EVAL"}

Init == /\ cfg \in Configs /\ Valid(cfg)
        /\ disk = {} /\ pc = "off" /\ first = 0 /\ step = 0 /\ left = 0
        /\ due = {} /\ stop = FALSE /\ runs = 0 /\ done = {}

StartStep == IF disk = {} THEN cfg.init ELSE Max(disk)
Start ==
  /\ Valid(cfg) /\ pc = "off" /\ runs < MaxRuns /\ runs' = runs + 1
  /\ first' = StartStep /\ step' = StartStep /\ left' = 0 /\ stop' = FALSE /\ done' = {}
  /\ due' = If(cfg.before /\ cfg.te, "teval") \cup If(cfg.before /\ cfg.ie, "ieval")
            \cup If(cfg.period > 0 /\ StartStep \notin disk, "save")
  /\ pc' = IF Total(cfg, StartStep) < StartStep THEN "bad" ELSE "run"
  /\ UNCHANGED <<cfg, disk>>

\* A total below the restored step is an error.  (What is owed before
\* training may be done before it is noticed.)
Reject == /\ pc = "bad" /\ pc' = "off" /\ due' = {}
          /\ UNCHANGED <<cfg, disk, first, step, left, stop, runs, done>>

Chunk(n) ==
  /\ pc = "run" /\ left = 0 /\ due = {} /\ ~stop
  /\ n >= 1 /\ step < Total(cfg, first) /\ step + n <= Bound(cfg, first, step)
  /\ left' = n
  /\ UNCHANGED <<cfg, disk, pc, first, step, due, stop, runs, done>>

Step ==
  /\ pc = "run" /\ left > 0
  /\ step' = step + 1 /\ left' = left - 1
  /\ due' = IF left > 1 THEN {} ELSE
              If("TRAIN" \in cfg.acts /\ ~cfg.conc, "TRAIN")
              \cup If(SaveAt(cfg, first, step') /\ step' \notin disk, "save")
              \cup If(EvalAt(cfg, first, step') /\ cfg.te, "teval")
              \cup If(EvalAt(cfg, first, step') /\ cfg.ie, "ieval")
  /\ UNCHANGED <<cfg, disk, pc, first, stop, runs, done>>

Save ==
  /\ pc \in {"run", "dying", "bad"} /\ left = 0
  /\ "save" \in due \/ (step \in disk /\ ~cfg.orbax)
  /\ disk' = disk \cup {step} /\ due' = due \ {"save"}
  /\ UNCHANGED <<cfg, pc, first, step, left, stop, runs, done>>

Eval(kind) ==
  /\ pc \in {"run", "bad"} /\ left = 0
  /\ \/ kind \in due
     \/ stop /\ EvalPeriod(cfg) > 0 /\ [e |-> kind, s |-> step] \notin done
        /\ IF kind = "teval" THEN cfg.te ELSE cfg.ie
  /\ due' = (due \ {kind}) \cup
            IF kind = "teval" THEN If("TRAIN_EVAL" \in cfg.acts, "TRAIN_EVAL")
            ELSE If("INFER_EVAL" \in cfg.acts /\ ~cfg.conc, "INFER_EVAL")
  /\ done' = done \cup {[e |-> kind, s |-> step]}
  /\ UNCHANGED <<cfg, disk, pc, first, step, left, stop, runs>>

Act(mode, r) ==
  /\ pc \in {"run", "bad"} /\ mode \in due /\ left = 0
  /\ stop' = (stop \/ r)
  /\ due' = (due \ {mode}) \cup If(stop' /\ cfg.period > 0 /\ step \notin disk, "save")
  /\ UNCHANGED <<cfg, disk, pc, first, step, left, runs, done>>

Preempt ==
  /\ pc = "run" /\ left > 0
  /\ pc' = "dying" /\ left' = 0
  /\ due' = If(cfg.period > 0 /\ step \notin disk, "save")
  /\ UNCHANGED <<cfg, disk, first, step, stop, runs, done>>
Preempted == /\ pc = "dying" /\ due = {} /\ pc' = "off"
             /\ UNCHANGED <<cfg, disk, first, step, left, due, stop, runs, done>>

Crash == /\ pc = "run" /\ left > 0 /\ pc' = "off" /\ left' = 0 /\ due' = {}
         /\ UNCHANGED <<cfg, disk, first, step, stop, runs, done>>

End == /\ pc = "run" /\ left = 0 /\ due = {}
       /\ stop \/ step = Total(cfg, first)
       /\ pc' = "off"
       /\ UNCHANGED <<cfg, disk, first, step, left, due, stop, runs, done>>

Next == \/ Start \/ Reject \/ (\E n \in 1..8 : Chunk(n)) \/ Step \/ Save
        \/ (\E k \in {"teval", "ieval"} : Eval(k))
        \/ (\E m \in cfg.acts, r \in BOOLEAN : Act(m, r))
        \/ Preempt \/ Preempted \/ Crash \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
(* Properties *)
\* Everything required up to the current step has been done when a run ends
\* or goes on.
Fulfilled ==
  (pc = "run" /\ left = 0 /\ due = {}) =>
    /\ \A s \in (first + 1)..step : SaveAt(cfg, first, s) => s \in disk
    /\ (stop \/ step = Total(cfg, first)) /\ cfg.period > 0 => step \in disk
    /\ \A s \in (first + 1)..step : EvalAt(cfg, first, s) =>
         /\ cfg.te => [e |-> "teval", s |-> s] \in done
         /\ cfg.ie => [e |-> "ieval", s |-> s] \in done
EvalsAtBoundaries ==
  \A d \in done : d.s = first \/ EvalAt(cfg, first, d.s) \/ stop
NeverPastTotal == pc = "run" => step <= Total(cfg, first)
\* Steps are never skipped or repeated within a run, and a run continues from
\* the newest checkpoint.
OneByOne == [][pc = "run" /\ pc' = "run" => step' \in {step, step + 1}]_vars
Resumes == [][pc = "off" /\ pc' # "off" => step' = StartStep]_vars
NoTrainingAfterStop == [][stop /\ pc = "run" /\ pc' = "run" => step' = step]_vars
DiskGrows == [][disk \subseteq disk']_vars
Terminates == (pc = "run") ~> (pc = "off")
=============================================================================
