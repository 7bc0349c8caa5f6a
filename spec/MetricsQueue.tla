---------------------------- MODULE MetricsQueue ----------------------------
(***************************************************************************)
(* The background writer of metric summaries (C10).  A caller hands over   *)
(* summaries; a worker takes them in order, computes the values and writes *)
(* them holding the writer's lock.  Single values are written by callers   *)
(* directly under the same lock.  Flushing waits for all that was handed   *)
(* over before, then flushes the writer; closing does the same and closes  *)
(* the writer.  A failed write is reported to the caller later on.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSums, Clients, MaxScalars
VARIABLES queue,   \* summaries handed over and not taken
          cur,     \* summary the worker has, 0 if none
          lock,    \* "none", "worker" or a client
          out,     \* what the writer got, in order
          failed,  \* summaries whose write failed
          caller,  \* what the main caller waits for
          upto,    \* number of summaries handed over
          nsc,     \* single values written per client
          err, flushed, closed
vars == <<queue, cur, lock, out, failed, caller, upto, nsc, err, flushed, closed>>
Init == /\ queue = <<>> /\ cur = 0 /\ lock = "none" /\ out = <<>> /\ failed = {} /\ caller = "run"
        /\ upto = 0 /\ nsc = [c \in Clients |-> 0] /\ err = FALSE /\ flushed = 0 /\ closed = FALSE
Enqueue == /\ caller = "run" /\ ~closed /\ upto < MaxSums
           /\ queue' = Append(queue, upto + 1) /\ upto' = upto + 1
           /\ err' \in {err, FALSE}          \* may report a failure
           /\ UNCHANGED <<cur, lock, out, failed, caller, nsc, flushed, closed>>
Take == /\ cur = 0 /\ queue # <<>> /\ cur' = Head(queue) /\ queue' = Tail(queue)
        /\ UNCHANGED <<lock, out, failed, caller, upto, nsc, err, flushed, closed>>
WLock == /\ cur # 0 /\ lock = "none" /\ lock' = "worker"
         /\ UNCHANGED <<queue, cur, out, failed, caller, upto, nsc, err, flushed, closed>>
WWrite == /\ lock = "worker" /\ lock' = "none" /\ cur' = 0
          /\ \/ out' = Append(out, cur) /\ UNCHANGED <<failed, err>>
             \/ failed = {} /\ failed' = {cur} /\ err' = TRUE /\ out' = out
          /\ UNCHANGED <<queue, caller, upto, nsc, flushed, closed>>
CLock(c) == /\ lock = "none" /\ ~closed /\ nsc[c] < MaxScalars /\ lock' = c
            /\ UNCHANGED <<queue, cur, out, failed, caller, upto, nsc, err, flushed, closed>>
CWrite(c) == /\ lock = c /\ lock' = "none" /\ out' = Append(out, 0) /\ nsc' = [nsc EXCEPT ![c] = @ + 1]
             /\ UNCHANGED <<queue, cur, failed, caller, upto, err, flushed, closed>>
Wait(w) == /\ caller = "run" /\ ~closed /\ caller' = w
           /\ UNCHANGED <<queue, cur, lock, out, failed, upto, nsc, err, flushed, closed>>
Waited == /\ caller \in {"flush", "close"} /\ queue = <<>> /\ cur = 0
          /\ flushed' = upto /\ err' = FALSE /\ caller' = "run"
          /\ caller = "close" => lock = "none" /\ \A c \in Clients : nsc[c] = MaxScalars
          /\ closed' = (caller = "close")
          /\ UNCHANGED <<queue, cur, lock, out, failed, upto, nsc>>
Next == Enqueue \/ Take \/ WLock \/ WWrite \/ (\E c \in Clients : CLock(c) \/ CWrite(c))
        \/ Wait("flush") \/ Wait("close") \/ Waited
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ WLock \/ WWrite \/ Waited) /\ \A c \in Clients : SF_vars(CLock(c)) /\ WF_vars(CWrite(c))
----------------------------------------------------------------------------
Sums == SelectSeq(out, LAMBDA x : x # 0)
InOrder == \A i, j \in DOMAIN Sums : i < j => Sums[i] < Sums[j]
OnceEach == \A i \in 1..upto : Cardinality({k \in DOMAIN out : out[k] = i}) +
              (IF i \in failed THEN 1 ELSE 0) <= 1
Settled == \A i \in 1..flushed : i \in failed \/ \E k \in DOMAIN out : out[k] = i
FinalOut == [][closed => out' = out]_vars
Ends == caller = "close" ~> closed
=============================================================================
