------------------------------ MODULE GcGuard ------------------------------
(***************************************************************************)
(* Garbage collection during guarded imports and regions (C22).  Regions   *)
(* nest and may fail at any point; code inside may switch collection on or *)
(* off itself.  A region that found it on switches it off and leaves it    *)
(* on; a region that found it off makes no change.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxDepth
VARIABLES on, stack, guard, user
vars == <<on, stack, guard, user>>
\* `guard`: imports are guarded; `user`: user code changed the setting inside.
Init == on \in BOOLEAN /\ stack = <<>> /\ guard \in BOOLEAN /\ user = FALSE
Enter(guarded) == /\ Len(stack) < MaxDepth
                  /\ stack' = Append(stack, [found |-> on, guarded |-> guarded])
                  /\ on' = (on /\ ~guarded)
                  /\ UNCHANGED <<guard, user>>
Top == stack[Len(stack)]
Leave == /\ stack # <<>>
         /\ IF Top.guarded /\ Top.found THEN on' = TRUE
            \* (what user code did inside may be kept or undone)
            ELSE IF Top.guarded /\ user THEN on' \in {on, FALSE} ELSE on' = on
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ user' = (user /\ Len(stack) > 1)
         /\ UNCHANGED guard
Set(b) == on' = b /\ user' = (stack # <<>>) /\ UNCHANGED <<stack, guard>>
Install == guard' = TRUE /\ UNCHANGED <<on, stack, user>>
Next == Enter(guard) \/ Enter(TRUE) \/ Leave \/ Set(TRUE) \/ Set(FALSE) \/ Install
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* Inside a guarded region collection is off unless user code switched it on,
\* and the outermost region leaves it as found.
Off == (\E i \in DOMAIN stack : stack[i].guarded) /\ ~user => ~on
Restored == [][Len(stack) = 1 /\ stack' = <<>> /\ Top.guarded /\ Top.found => on']_vars
Untouched == [][Len(stack) = 1 /\ stack' = <<>> /\ ~user /\ ~Top.found => ~on']_vars
=============================================================================
