------------------------------ MODULE CkptSave -------------------------------
(* The multi-host save protocol: every host writes its array shards and its   *)
(* data-iterator shard into a temporary directory, host 1 writes the index    *)
(* file, publishes by rename and prunes; barriers order the phases.  Checks    *)
(* that the protocol refines CkptStore for every interleaving and crash point *)
(* and is deadlock free.  Barriers \subseteq 1..5 selects the barriers used.  *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS N,         \* hosts
          Barriers,  \* barriers in force (the code has all of 1..5)
          SaveSteps, \* steps saved, in order
          KeepN, MaxCrash

Hosts == 1..N
VARIABLES pc,     \* host -> program counter within the current save
          tmp,    \* what the temporary directory holds: [dir, sh, it, idx]
          vis,    \* step -> [sh, it, idx] under the final name
          k,      \* index of the current save in SaveSteps
          up,     \* job is running
          crashes,
          who     \* host that took the last step (for schedule generation)

svars == <<pc, tmp, vis, k, up, crashes>>
Empty == [dir |-> FALSE, sh |-> {}, it |-> {}, idx |-> FALSE]
Step == SaveSteps[k]

\* 0 start; 1 at barrier "dir made"; 2 writing; 3 at barrier "arrays written";
\* 4 iterator; 5 at barrier "all written"; 6 index; 7 rename; 8 prune;
\* 9 at the final barrier; 10 done
Init == /\ pc = [h \in Hosts |-> 0] /\ tmp = Empty /\ vis = <<>>
        /\ k = 1 /\ up = TRUE /\ crashes = 0 /\ who = 0

Lead(h) == h = 1
Adv(h, p) == pc' = [pc EXCEPT ![h] = p]
Pass(b, p) == b \notin Barriers \/ \A h \in Hosts : pc[h] >= p

Begin(h) == /\ pc[h] = 0
            /\ IF Step \in DOMAIN vis
               THEN Adv(h, 10) /\ UNCHANGED tmp
               ELSE /\ Adv(h, 1)
                    /\ IF Lead(h) THEN tmp' = [Empty EXCEPT !.dir = TRUE]
                       ELSE UNCHANGED tmp
            /\ UNCHANGED <<vis, k, up, crashes>>
Enter(h) == /\ pc[h] = 1 /\ Pass(1, 1) /\ Adv(h, 2) /\ UNCHANGED <<tmp, vis, k, up, crashes>>
Write(h) == /\ pc[h] = 2 /\ Adv(h, 3)
            /\ tmp' = IF tmp.dir THEN [tmp EXCEPT !.sh = @ \cup {h}] ELSE tmp
            /\ UNCHANGED <<vis, k, up, crashes>>
Wrote(h) == /\ pc[h] = 3 /\ Pass(2, 3) /\ Adv(h, 4) /\ UNCHANGED <<tmp, vis, k, up, crashes>>
Iter(h) == /\ pc[h] = 4 /\ Adv(h, 5)
           /\ tmp' = IF tmp.dir THEN [tmp EXCEPT !.it = @ \cup {h}] ELSE tmp
           /\ UNCHANGED <<vis, k, up, crashes>>
All(h) == /\ pc[h] = 5 /\ Pass(3, 5) /\ Adv(h, IF Lead(h) THEN 6 ELSE 9)
          /\ UNCHANGED <<tmp, vis, k, up, crashes>>
Index(h) == /\ pc[h] = 6 /\ Adv(h, 7) /\ tmp' = [tmp EXCEPT !.idx = TRUE]
            /\ UNCHANGED <<vis, k, up, crashes>>
Rename(h) == /\ pc[h] = 7 /\ Adv(h, 8) /\ vis' = vis @@ (Step :> tmp) /\ tmp' = Empty
             /\ UNCHANGED <<k, up, crashes>>
Prune(h) == /\ pc[h] = 8
            /\ LET old == {s \in DOMAIN vis : KeepN > 0 /\
                             Cardinality({u \in DOMAIN vis : u > s}) >= KeepN}
               IN IF old = {} THEN Adv(h, 9) /\ UNCHANGED vis
                  ELSE LET s == CHOOSE s \in old : \A u \in old : s <= u
                       IN \/ vis[s].idx /\ vis' = [vis EXCEPT ![s] = [Empty EXCEPT !.dir = TRUE]]
                                        /\ UNCHANGED pc
                          \/ vis' = [x \in DOMAIN vis \ {s} |-> vis[x]] /\ UNCHANGED pc
            /\ UNCHANGED <<tmp, k, up, crashes>>
Leave(h) == /\ pc[h] = 9 /\ Pass(4, 9) /\ Adv(h, 10) /\ UNCHANGED <<tmp, vis, k, up, crashes>>

NextSave == /\ up /\ \A h \in Hosts : pc[h] = 10
            /\ k < Len(SaveSteps)
            /\ k' = k + 1 /\ pc' = [h \in Hosts |-> 0] /\ who' = 0
            /\ UNCHANGED <<tmp, vis, up, crashes>>
Crash == /\ up /\ crashes < MaxCrash /\ up' = FALSE /\ crashes' = crashes + 1
         /\ who' = 0 /\ UNCHANGED <<pc, tmp, vis, k>>
\* a restarted job saves again from a step not yet visible
Restart == /\ ~up /\ up' = TRUE /\ pc' = [h \in Hosts |-> 0] /\ tmp' = Empty
           /\ who' = 0 /\ UNCHANGED <<vis, k, crashes>>

Act(h) == Begin(h) \/ Enter(h) \/ Write(h) \/ Wrote(h) \/ Iter(h) \/ All(h) \/ Index(h)
          \/ Rename(h) \/ Prune(h) \/ Leave(h)
Host(h) == up /\ Act(h) /\ who' = h
Done == up /\ k = Len(SaveSteps) /\ (\A h \in Hosts : pc[h] = 10)
        /\ UNCHANGED <<svars, who>>
Next == (\E h \in Hosts : Host(h)) \/ NextSave \/ Crash \/ Restart \/ Done
Spec == Init /\ [][Next]_<<svars, who>> /\ WF_<<svars, who>>(Next)

View == svars
Complete(c) == c.sh = Hosts /\ c.it = Hosts /\ c.idx
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
NewestComplete == DOMAIN vis # {} => Complete(vis[MaxOf(DOMAIN vis)])
\* no host touches a directory of a save that others have not entered or left
SameSave == \A h \in Hosts : pc[h] \in 2..5 => \A g \in Hosts : pc[g] >= 1

(* refinement *)
absVis == [s \in DOMAIN vis |-> [ok |-> Complete(vis[s]), ds |-> vis[s].it = Hosts,
                                 pin |-> FALSE]]
absPhase == IF ~up THEN "down"
            ELSE IF \A h \in Hosts : pc[h] = 0 THEN "idle"
            ELSE IF \A h \in Hosts : pc[h] = 10 THEN "idle" ELSE "saving"
S == INSTANCE CkptStore WITH vis <- absVis, phase <- absPhase, cur <- Step,
       got <- -1, pub <- FALSE, Steps <- {SaveSteps[i] : i \in DOMAIN SaveSteps},
       Keep <- KeepN, KeepDs <- 0, Ordered <- TRUE
RefinesVis == [][absPhase = "saving" /\ absPhase' = "saving" =>
                   S!VisStep(absVis, absVis', Step, KeepN, 0)]_svars
Ends == [][absPhase = "saving" /\ absPhase' = "idle" /\ up =>
             /\ Step \in DOMAIN absVis'
             /\ (\E h \in Hosts : pc[h] = 9) => S!Pruned(absVis', KeepN)]_svars
Quiet == [][absPhase # "saving" /\ absPhase' # "saving" => absVis' = absVis]_svars
Finishes == <>[](~up \/ \A h \in Hosts : pc[h] = 10)
=============================================================================
