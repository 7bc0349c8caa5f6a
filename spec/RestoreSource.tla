--------------------------- MODULE RestoreSource ---------------------------
(***************************************************************************)
(* Where a starting job gets its state from (C05).                         *)
(*                                                                         *)
(* Part 1: a training job with its own output directory and the directory  *)
(* of another run, started any number of times.                            *)
(* Part 2: an evaluation job that visits all checkpoints of a directory    *)
(* and remembers which ones it has evaluated.                              *)
(***************************************************************************)
EXTENDS RestoreResolve
----------------------------------------------------------------------------
CONSTANTS MaxStep, PreSteps
VARIABLES own,      \* step -> value saved there
          pre,      \* steps in the other run's directory
          up, value, step,
          edir,     \* checkpoints the evaluation job looks at
          done, queue, eup, visits   \* visits[s]: times evaluated
jvars == <<own, pre, up, value, step>>
evars == <<edir, done, queue, eup, visits>>
\* A value: the checkpoint it descends from (0: scratch) and how many times
\* the transformations of the foreign checkpoint were applied.
JInit == /\ own = [s \in {} |-> 0] /\ pre \in SUBSET PreSteps
         /\ up = FALSE /\ value = [root |-> 0, n |-> 0] /\ step = 0
Start(mode, spec) ==
  /\ ~up /\ up' = TRUE
  /\ IF DOMAIN own # {}
     THEN step' = Max(DOMAIN own) /\ value' = own[Max(DOMAIN own)]
     ELSE IF mode = "latest" /\ pre # {}
     THEN step' = Max(pre) /\ value' = [root |-> Max(pre), n |-> 1]
     ELSE IF mode = "specific"
     THEN spec \in pre /\ step' = spec /\ value' = [root |-> spec, n |-> 1]
     ELSE step' = 0 /\ value' = [root |-> 0, n |-> 0]
  /\ UNCHANGED <<own, pre>>
Step == up /\ step < MaxStep /\ step' = step + 1 /\ UNCHANGED <<own, pre, up, value>>
Save == /\ up /\ step \notin DOMAIN own
        /\ own' = [s \in DOMAIN own \cup {step} |-> IF s = step THEN value ELSE own[s]]
        /\ UNCHANGED <<pre, up, value, step>>
Stop == up /\ up' = FALSE /\ UNCHANGED <<own, pre, value, step>>
PreGrows == \E s \in PreSteps \ pre : pre' = pre \cup {s} /\ UNCHANGED <<own, up, value, step>>
PreGone == \E s \in pre : pre' = pre \ {s} /\ UNCHANGED <<own, up, value, step>>
JNext == \/ \E m \in {"latest", "none"} : Start(m, 0)
         \/ \E s \in PreSteps : Start("specific", s)
         \/ Step \/ Save \/ Stop \/ PreGrows \/ PreGone
JSpec == JInit /\ edir = {} /\ done = {} /\ queue = <<>> /\ eup = FALSE
         /\ visits = [s \in 0..MaxStep |-> 0] /\ [][JNext /\ UNCHANGED evars]_<<jvars, evars>>
Once == up => value.n = IF value.root = 0 THEN 0 ELSE 1
\* As soon as the job has a checkpoint it never changes its descent.
Sticky == [][\A s \in DOMAIN own : up' /\ ~up => value'.root = own[Max(DOMAIN own)].root]_jvars
OneRoot == \A s, r \in DOMAIN own : own[s] = own[r]
----------------------------------------------------------------------------
EInit == /\ edir \in SUBSET (0..MaxStep) /\ done = {} /\ queue = <<>> /\ eup = FALSE
         /\ visits = [s \in 0..MaxStep |-> 0]
EStart == ~eup /\ eup' = TRUE /\ queue' = Asc(edir \ done) /\ UNCHANGED <<edir, done, visits>>
Visits(s) == [visits EXCEPT ![s] = @ + 1]
Evaluate == /\ eup /\ queue # <<>>
            /\ visits' = Visits(Head(queue)) /\ done' = done \cup {Head(queue)}
            /\ queue' = Tail(queue) /\ UNCHANGED <<edir, eup>>
DieEvaluating == /\ eup /\ queue # <<>> /\ visits[Head(queue)] < 2
                 /\ visits' = Visits(Head(queue)) /\ eup' = FALSE
                 /\ queue' = <<>> /\ UNCHANGED <<edir, done>>
EStop == eup /\ eup' = FALSE /\ queue' = <<>> /\ UNCHANGED <<edir, done, visits>>
Changes == /\ ~eup /\ edir' \in SUBSET (0..MaxStep) /\ UNCHANGED <<done, queue, eup, visits>>
ENext == EStart \/ Evaluate \/ DieEvaluating \/ EStop \/ Changes
ESpec == EInit /\ JInit /\ [][ENext /\ UNCHANGED jvars]_<<jvars, evars>>
\* A recorded checkpoint is never evaluated again, and evaluations go upwards.
NeverAgain == [][\A s \in done : visits'[s] = visits[s]]_evars
Upwards == \A i, j \in DOMAIN queue : i < j => queue[i] < queue[j]
Complete == eup /\ queue = <<>> => \A s \in edir : visits[s] > 0
=============================================================================
