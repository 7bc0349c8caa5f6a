------------------------------ MODULE Sampling -------------------------------
(* Continuing prompts by sampling.  Tokens sit at positions 0..L; position 0    *)
(* and the prompt are given, a model that depends on the whole history gives    *)
(* weights for the next token.  A call c holds what all rows share, a row r its *)
(* prompt, first index, temperature and the model state behind that index.      *)
EXTENDS Integers, Sequences, FiniteSets, TopMask, LnTable
M == 5
Feed(h, tok, pos) == (3 * h + tok + 2 * pos + 1) % M
PromptAt(c, r, p) == IF p < c.len THEN r.prompt[p + 1] ELSE 0
(* the tokens of a row: given at 0, found in out from 1 on *)
TokAt(c, r, out, p) == IF p = 0 THEN r.prompt[1] ELSE out[p]
RECURSIVE Carried(_, _, _, _)
Carried(c, r, out, p) == IF p = 0 THEN r.h0 ELSE Feed(Carried(c, r, out, p - 1), TokAt(c, r, out, p - 1), p - 1)
RECURSIVE Seen(_, _, _, _)
Seen(c, r, out, p) == IF p = 0 THEN 0 ELSE Seen(c, r, out, p - 1) + TokAt(c, r, out, p - 1) * p
(* weights (roots) of the tokens at position p after the history in out *)
Banned(c, i) == i - 1 = c.ban
Roots(c, r, out, p) == LET g == (Carried(c, r, out, p) + Seen(c, r, out, p)) % M IN
  [i \in 1..c.vocab |-> IF Banned(c, i) THEN 0 ELSE c.table[g + 1][i]]
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
Powers(w, n) == [i \in DOMAIN w |-> Power(w[i], n)]
Positive(w) == {i \in DOMAIN w : w[i] > 0}
(* a row with b = 0 is greedy; else the tempered weights are roots^b *)
Best(w) == {i \in DOMAIN w : Above(w, i) = {}}
Allowed(c, r, w) ==
  IF r.b = 0 THEN Best(w)
  ELSE LET t == Powers(w, r.b) IN
       Positive(w) \cap
       (IF c.topk > 0 THEN KeepK(t, c.topk)
        ELSE IF c.pnum > 0 THEN KeepP(t, c.pnum, c.pden)
        ELSE DOMAIN t)
LogProb(c, r, w, i) ==
  IF c.rescale
  THEN IF r.b = 0 THEN 0
       ELSE LET t == Powers(w, r.b) IN Ln(t[i]) - Ln(SumOver(t, Allowed(c, r, w)))
  ELSE LET t == Powers(w, c.a) IN Ln(t[i]) - Ln(SumOver(t, DOMAIN t))
(* how far a row goes *)
Steps(c) == IF c.hard > 0 /\ c.hard < c.steps THEN c.hard ELSE c.steps
Given(c, r) == Cardinality({p \in 0..(c.len - 1) : PromptAt(c, r, p) # 0})
Limit(c, r) == IF c.steps < 0 THEN c.len
               ELSE IF Given(c, r) + Steps(c) < c.len THEN Given(c, r) + Steps(c) ELSE c.len
Generates(c, r, p) == p > r.start /\ PromptAt(c, r, p) = 0
EndedBefore(c, r, out, p) ==
  \/ p > Limit(c, r)
  \/ \E q \in 1..(p - 1) : Generates(c, r, q) /\ q <= Limit(c, r) /\ out[q] = c.eos
OkAt(c, r, out, p) ==
  IF ~Generates(c, r, p) THEN out[p] = PromptAt(c, r, p)
  ELSE IF EndedBefore(c, r, out, p) THEN out[p] = 0
  ELSE out[p] \in 0..(c.vocab - 1) /\ (out[p] + 1) \in Allowed(c, r, Roots(c, r, out, p))
OkSeq(c, r, out) == Len(out) = c.len /\ \A p \in 1..c.len : OkAt(c, r, out, p)
Drawn(c, r, out) == {p \in 1..c.len : Generates(c, r, p) /\ ~EndedBefore(c, r, out, p)}
Total(c, r, out) ==
  LET RECURSIVE Go(_)
      Go(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN
                 LogProb(c, r, Roots(c, r, out, p), out[p] + 1) + Go(S \ {p})
  IN Go(Drawn(c, r, out))
Near(x, y) == x - y <= 30 /\ y - x <= 30
OkRow(c, r) ==
  /\ \A d \in DOMAIN r.out : OkSeq(c, r, r.out[d]) /\ Near(r.lp[d], Total(c, r, r.out[d]))
  /\ \A d \in 2..Len(r.lp) : r.lp[d - 1] <= r.lp[d]
(* a call: valid rows, the same again with the same key, and rows that keep     *)
(* their answer when the others are replaced                                    *)
OkCall(c) ==
  /\ \A n \in DOMAIN c.rows : OkRow(c, c.rows[n])
  /\ c.again = [n \in DOMAIN c.rows |-> c.rows[n].out]
  /\ \A n \in DOMAIN c.kept : c.kept[n] = <<>> \/ c.kept[n] = c.rows[n].out
(* draws of a constant distribution with weights w, n draws: counts within 7    *)
(* standard deviations, different rows and decodes different                    *)
OkFreq(c) ==
  LET W == SumOver(c.w, DOMAIN c.w) IN
  /\ \A i \in DOMAIN c.w :
       LET d == c.count[i] * W - c.n * c.w[i] IN d * d <= 49 * c.n * c.w[i] * (W - c.w[i])
  /\ \A i, j \in DOMAIN c.outs : i # j => c.outs[i] # c.outs[j]
OkSample(c) == CASE c.kind = "call" -> OkCall(c)
           [] c.kind = "freq" -> OkFreq(c)
           [] c.kind = "both" -> c.raised
=============================================================================
