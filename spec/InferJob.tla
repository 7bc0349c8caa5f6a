------------------------------ MODULE InferJob ------------------------------
(* A file inference job that may be interrupted and started again (C13).       *)
(* known: inputs whose results have been computed in some run; settled: those  *)
(* that will not be computed again.  done: the marker of a finished job, which *)
(* may only be there together with the whole output.                           *)
EXTENDS Integers, FiniteSets
VARIABLES all, run, known, settled, done
jvars == <<all, run, known, settled, done>>
JInit(A) == all = A /\ run = FALSE /\ known = {} /\ settled = {} /\ done = FALSE
Start == ~run /\ run' = TRUE /\ UNCHANGED <<all, known, settled, done>>
Compute(R) == /\ run /\ ~done /\ R # {} /\ R \subseteq all /\ R \cap settled = {}
              /\ known' = known \cup R /\ UNCHANGED <<all, run, settled, done>>
Settle(R) == R \subseteq known /\ settled' = settled \cup R /\ UNCHANGED <<all, run, known, done>>
Finish == run /\ ~done /\ known = all /\ done' = TRUE /\ UNCHANGED <<all, run, known, settled>>
Crash == run /\ run' = FALSE /\ UNCHANGED <<all, known, settled, done>>
End == run /\ done /\ run' = FALSE /\ UNCHANGED <<all, known, settled, done>>
JNext == \/ Start \/ Finish \/ Crash \/ End
         \/ \E R \in SUBSET all : Compute(R) \/ Settle(R)
=============================================================================
