---------------------------- MODULE TrainResume ----------------------------
(***************************************************************************)
(* Interrupting and resuming training (C08).  The state after n steps is   *)
(* determined by the initial state, the seed (a fresh random number per    *)
(* step number) and the batches of steps 1..n: it is represented by the    *)
(* sequence of [batch, rng] pairs that made it.  A checkpoint holds that   *)
(* and, if data-iterator checkpointing is on, the position in the data.    *)
(* A job may be warm-started from a checkpoint of another run (Warm steps   *)
(* old), which is used only while the job has no checkpoint of its own.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSteps, SaveData, MaxDeaths, Warm
VARIABLES up,      \* the job is running
          hist,    \* the state: what made it
          pos,     \* position of the data iterator
          disk,    \* step -> [hist, pos]
          deaths, loaded   \* loaded: step at which this life began
vars == <<up, hist, pos, disk, deaths, loaded>>
Rng(step) == step                   \* a function of the step alone
Other(n) == [i \in 1..n |-> [batch |-> -1, rng |-> -1]]  \* what made the other run's state
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Init == up = FALSE /\ hist = <<>> /\ pos = 0 /\ disk = [s \in {} |-> 0] /\ deaths = 0 /\ loaded = 0
Begin == /\ ~up /\ up' = TRUE
         /\ IF DOMAIN disk = {} THEN hist' = Other(Warm) /\ pos' = 0
            ELSE LET c == disk[Max(DOMAIN disk)]
                 IN hist' = c.hist /\ pos' = IF SaveData THEN c.pos ELSE 0
         /\ loaded' = Len(hist')
         /\ UNCHANGED <<disk, deaths>>
Step == /\ up /\ Len(hist) < MaxSteps
        /\ hist' = Append(hist, [batch |-> pos, rng |-> Rng(Len(hist))])
        /\ pos' = pos + 1
        /\ UNCHANGED <<up, disk, deaths, loaded>>
Save == /\ up /\ Len(hist) \notin DOMAIN disk
        /\ disk' = [s \in DOMAIN disk \cup {Len(hist)} |->
                      IF s = Len(hist) THEN [hist |-> hist, pos |-> pos] ELSE disk[s]]
        /\ UNCHANGED <<up, hist, pos, deaths, loaded>>
Die == /\ up /\ deaths < MaxDeaths /\ up' = FALSE /\ deaths' = deaths + 1
       /\ hist' = <<>> /\ pos' = 0 /\ UNCHANGED <<disk, loaded>>
Forget == \* retention: all but the newest may go
  /\ \E s \in DOMAIN disk : s # Max(DOMAIN disk)
                            /\ disk' = [x \in DOMAIN disk \ {s} |-> disk[x]]
  /\ UNCHANGED <<up, hist, pos, deaths, loaded>>
Next == Begin \/ Step \/ Save \/ Die \/ Forget
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* The state at step n is the one of the uninterrupted run.
Uninterrupted(n) == Other(Warm) \o [i \in 1..n - Warm |-> [batch |-> i - 1, rng |-> Warm + i - 1]]
SameAsUninterrupted == SaveData /\ up => hist = Uninterrupted(Len(hist)) /\ pos = Len(hist) - Warm
SameRandomness == up => \A i \in Warm + 1..Len(hist) : hist[i].rng = i - 1
\* Without the data position, every life starts the data from the beginning.
Replays == ~SaveData /\ up => pos = Len(hist) - loaded
=============================================================================
