----------------------------- MODULE EarlyStop -----------------------------
(***************************************************************************)
(* When training is stopped by its actions (C11).                          *)
(*                                                                         *)
(* A patience action keeps the values of its metric.  It asks to stop at   *)
(* the first evaluation at which none of the last `patience` values is     *)
(* better, by more than the tolerance, than the value before it.           *)
(* Evaluations without the metric do not count.  Values are in units of    *)
(* 1/8, atol too; rtol in quarters.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
NoGain(mode, atol, rtol, prev, cur) ==
  LET d == 4 * atol + rtol * Abs(prev)
  IN IF mode = "min" THEN 4 * cur >= 4 * prev - d ELSE 4 * cur <= 4 * prev + d
\* The window ending at position n of the values h.
Stale(mode, atol, rtol, patience, h) ==
  /\ Len(h) >= patience
  /\ \A i \in (Len(h) - patience + 1)..(Len(h) - 1) : NoGain(mode, atol, rtol, h[i], h[i + 1])

CONSTANTS Vals, Mode, Atol, Rtol, Patience, MaxLen
VARIABLES win, run, fired, all
vars == <<win, run, fired, all>>
Init == win = <<>> /\ run = 0 /\ fired = FALSE /\ all = <<>>
Value(v) ==
  /\ ~fired /\ Len(all) < MaxLen
  /\ all' = Append(all, v)
  \* two ways of saying it: the window of values, and the number of
  \* consecutive values without a gain
  /\ win' = LET w == Append(win, v) IN IF Len(w) > Patience THEN Tail(w) ELSE w
  /\ run' = IF all # <<>> /\ NoGain(Mode, Atol, Rtol, all[Len(all)], v) THEN run + 1 ELSE 0
  /\ fired' = Stale(Mode, Atol, Rtol, Patience, win')
Missing == UNCHANGED vars
Next == (\E v \in Vals : Value(v)) \/ Missing
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Exactly == fired <=> run >= Patience - 1 /\ all # <<>>
First == \A n \in 0..(Len(all) - 1) : ~Stale(Mode, Atol, Rtol, Patience, SubSeq(all, 1, n))
Last == fired <=> Stale(Mode, Atol, Rtol, Patience, all)
\* While every value is better by more than the tolerance, training goes on.
Progress == (\A n \in 1..(Len(all) - 1) : ~NoGain(Mode, Atol, Rtol, all[n], all[n + 1])) => ~fired
=============================================================================
