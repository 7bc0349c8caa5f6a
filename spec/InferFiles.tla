----------------------------- MODULE InferFiles -----------------------------
(* How the job does it with files: chunks of results, a checkpoint of the      *)
(* dataset iterator per chunk and a pointer to the one to go on from, the      *)
(* merged output, the marker, and the deletion of the temporary files one by   *)
(* one.  A crash may come between any two steps.                               *)
EXTENDS Integers, FiniteSets
CONSTANTS K, CkptIter, Merge, MaxCrash
VARIABLES pc, cur, saved, ptr, chunk, cdone, out, done, computed, crashes
vars == <<pc, cur, saved, ptr, chunk, cdone, out, done, computed, crashes>>
C == 1..K
Init == /\ pc = "off" /\ cur = 0 /\ saved = {} /\ ptr = 0 /\ chunk = [k \in C |-> "none"] /\ cdone = {}
        /\ out = "none" /\ done = FALSE /\ computed = {} /\ crashes = 0
Disk == <<saved, ptr, chunk, cdone, out, done>>
Begin == /\ pc = "off" /\ pc' = IF done THEN "end" ELSE "loop"
         /\ cur' = IF CkptIter /\ ptr \in saved THEN ptr + 1 ELSE 1
         /\ UNCHANGED <<Disk, computed, crashes>>
Loop == /\ pc = "loop"
        /\ IF cur > K THEN pc' = (IF Merge THEN "merge" ELSE "mark") /\ cur' = cur
           ELSE IF ~CkptIter /\ cur \in cdone
                THEN IF chunk[cur] = "full" THEN pc' = pc /\ cur' = cur + 1 ELSE pc' = "stuck" /\ cur' = cur
                ELSE pc' = "infer" /\ cur' = cur
        /\ UNCHANGED <<Disk, computed, crashes>>
Infer == /\ pc = "infer" /\ computed' = computed \cup {cur} /\ pc' = IF CkptIter THEN "save" ELSE "write"
         /\ UNCHANGED <<cur, Disk, crashes>>
Save == pc = "save" /\ saved' = saved \cup {cur} /\ pc' = "write"
        /\ UNCHANGED <<cur, ptr, chunk, cdone, out, done, computed, crashes>>
Write == /\ pc = "write" /\ \/ chunk' = [chunk EXCEPT ![cur] = "part"] /\ pc' = "write2"
                            \/ chunk' = [chunk EXCEPT ![cur] = "full"] /\ pc' = "chunkdone"
         /\ UNCHANGED <<cur, saved, ptr, cdone, out, done, computed, crashes>>
Write2 == pc = "write2" /\ chunk' = [chunk EXCEPT ![cur] = "full"] /\ pc' = "chunkdone"
          /\ UNCHANGED <<cur, saved, ptr, cdone, out, done, computed, crashes>>
ChunkDone == /\ pc = "chunkdone" /\ cdone' = cdone \cup {cur}
             /\ IF CkptIter THEN pc' = "point" /\ cur' = cur ELSE pc' = "loop" /\ cur' = cur + 1
             /\ UNCHANGED <<saved, ptr, chunk, out, done, computed, crashes>>
Point == pc = "point" /\ ptr' = cur /\ pc' = "tidy"
         /\ UNCHANGED <<cur, saved, chunk, cdone, out, done, computed, crashes>>
Tidy == pc = "tidy" /\ saved' = saved \ {cur - 1} /\ pc' = "loop" /\ cur' = cur + 1
        /\ UNCHANGED <<ptr, chunk, cdone, out, done, computed, crashes>>
MergeA == pc = "merge" /\ out' = "part" /\ pc' = "merge2"
          /\ UNCHANGED <<cur, saved, ptr, chunk, cdone, done, computed, crashes>>
MergeB == /\ pc = "merge2"
          /\ LET P == {k \in C : chunk[k] # "none"}
             IN IF P = {} \/ \E k \in P : \E j \in 1..k : j \notin P
                THEN pc' = "stuck" /\ out' = out
                ELSE pc' = "mark" /\ out' = IF \A k \in C : chunk[k] = "full" THEN "full" ELSE "short"
          /\ UNCHANGED <<cur, saved, ptr, chunk, cdone, done, computed, crashes>>
Mark == pc = "mark" /\ done' = TRUE /\ pc' = (IF Merge THEN "del" ELSE "end")
        /\ UNCHANGED <<cur, saved, ptr, chunk, cdone, out, computed, crashes>>
Del == /\ pc = "del"
       /\ \/ \E k \in C : chunk[k] # "none" /\ chunk' = [chunk EXCEPT ![k] = "none"] /\ UNCHANGED <<pc, saved, ptr, cdone>>
          \/ \E k \in cdone : cdone' = cdone \ {k} /\ UNCHANGED <<pc, saved, ptr, chunk>>
          \/ \E k \in saved : saved' = saved \ {k} /\ UNCHANGED <<pc, ptr, chunk, cdone>>
          \/ ptr # 0 /\ ptr' = 0 /\ UNCHANGED <<pc, saved, chunk, cdone>>
          \/ (\A k \in C : chunk[k] = "none") /\ cdone = {} /\ saved = {} /\ ptr = 0 /\ pc' = "end"
             /\ UNCHANGED <<saved, ptr, chunk, cdone>>
       /\ UNCHANGED <<cur, out, done, computed, crashes>>
Leave == pc = "end" /\ pc' = "off" /\ crashes < MaxCrash /\ crashes' = crashes + 1   \* started once more
         /\ UNCHANGED <<cur, Disk, computed>>
Crash == pc \notin {"off", "end"} /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ pc' = "off" /\ cur' = 0
         /\ UNCHANGED <<Disk, computed>>
Step == \/ Begin \/ Loop \/ Infer \/ Save \/ Write \/ Write2 \/ ChunkDone \/ Point \/ Tidy
        \/ MergeA \/ MergeB \/ Mark \/ Del
Next == Step \/ Leave \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
----------------------------------------------------------------------------
Whole == done => IF Merge THEN out = "full" ELSE \A k \in C : chunk[k] = "full"
NeverStuck == pc # "stuck"
Finishes == <>[]done
Ends == [](pc = "off" => <>(pc = "end"))
J == INSTANCE InferJob WITH all <- C, run <- pc # "off", known <- computed, settled <- IF CkptIter THEN 1..ptr ELSE cdone
(* settled results are not needed any more when they are deleted *)
Refines == [][J!JNext \/ done]_<<pc # "off", computed, IF CkptIter THEN 1..ptr ELSE cdone, done>>
=============================================================================
