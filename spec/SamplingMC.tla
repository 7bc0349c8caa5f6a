----------------------------- MODULE SamplingMC ------------------------------
(* The sampling loop: all rows of a batch advance together until all have       *)
(* ended; a row that has ended writes zeros, in the end into a position behind  *)
(* the sequence.  Whatever is drawn, the result is one Sampling accepts.        *)
EXTENDS Sampling
CONSTANTS Len0, Calls, Prompts, Rows, EarlyStart, Temps
VARIABLES c, rs, cur, seq, ended, lp, done
vars == <<c, rs, cur, seq, ended, lp, done>>
NonZero(s) == Cardinality({p \in DOMAIN s : s[p] # 0})
Starts(s) == IF EarlyStart THEN 0..NonZero(s) ELSE {0}
Row(s, st, b) == [prompt |-> s, start |-> st, h0 |-> 0, b |-> b]
RowSet == UNION {{Row(s, st, b) : st \in Starts(s), b \in Temps} : s \in Prompts}
(* sequences have positions 0..Len0 + 1, stored from 1 *)
Full(r) == [p \in 1..(Len0 + 2) |-> IF p <= Len0 THEN r.prompt[p] ELSE 0]
Out(s) == [p \in 1..Len0 |-> s[p + 1]]
Count(s) == Cardinality({p \in DOMAIN s : s[p] = c.eos})
Init == /\ c \in Calls
        /\ rs \in [1..Rows -> RowSet]
        /\ \A n \in 1..Rows : c.steps > 0 \/ rs[n].start < Len0
        /\ cur = [n \in 1..Rows |-> rs[n].start]
        /\ seq = [n \in 1..Rows |-> Full(rs[n])]
        /\ ended = [n \in 1..Rows |-> FALSE]
        /\ lp = [n \in 1..Rows |-> 0]
        /\ done = FALSE
Min(a, b) == IF a < b THEN a ELSE b
(* what a row may draw at its index: anything once it has ended *)
Choice(n) == IF ended[n] THEN {1}
             ELSE Allowed(c, rs[n], Roots(c, rs[n], Out(seq[n]), cur[n] + 1))
Advance(n, t) ==
  LET i == Min(cur[n], Limit(c, rs[n]))
      forced == seq[n][i + 2] # 0
      tok == IF ended[n] THEN 0 ELSE IF forced THEN seq[n][i + 2] ELSE t - 1
      s == [seq[n] EXCEPT ![i + 2] = tok]
  IN [s |-> s, i |-> i + 1,
      e |-> ended[n] \/ Count(s) > Count(Full(rs[n])) \/ i >= Limit(c, rs[n]) - 1,
      l |-> lp[n] + (IF forced \/ ended[n] THEN 0
                     ELSE LogProb(c, rs[n], Roots(c, rs[n], Out(seq[n]), cur[n] + 1), t))]
Loop == /\ ~done /\ \E n \in 1..Rows : ~ended[n]
        /\ \E ch \in [1..Rows -> 1..c.vocab] :
             /\ \A n \in 1..Rows : ch[n] \in Choice(n)
             /\ LET a == [n \in 1..Rows |-> Advance(n, ch[n])] IN
                /\ seq' = [n \in 1..Rows |-> a[n].s]
                /\ cur' = [n \in 1..Rows |-> a[n].i]
                /\ ended' = [n \in 1..Rows |-> a[n].e]
                /\ lp' = [n \in 1..Rows |-> a[n].l]
        /\ UNCHANGED <<c, rs, done>>
Finish == /\ ~done /\ \A n \in 1..Rows : ended[n]
          /\ done' = TRUE /\ UNCHANGED <<c, rs, cur, seq, ended, lp>>
Next == Loop \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Valid == done => \A n \in 1..Rows : /\ OkSeq(c, rs[n], Out(seq[n]))
                                    /\ lp[n] = Total(c, rs[n], Out(seq[n]))
PromptKept == \A n \in 1..Rows : \A p \in 1..Len0 : rs[n].prompt[p] # 0 => seq[n][p] = rs[n].prompt[p]
Ends == <>done
TableOk == \A i, j \in 1..20 : LET d == Ln(i) + Ln(j) - Ln(i * j) IN d \in -2..2
=============================================================================
