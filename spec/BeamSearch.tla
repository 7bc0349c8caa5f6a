----------------------------- MODULE BeamSearch ------------------------------
(* Beam search over the history dependent model of Sampling.  A hypothesis is   *)
(* the tokens at positions 1.., what the model carries, and its log             *)
(* probability; c.beams hypotheses live and as many finished ones are kept.     *)
EXTENDS Sampling
(* length penalty as a fraction *)
Pow06 == <<1000, 1097, 1189, 1275, 1359, 1439, 1516, 1591, 1663, 1734, 1803, 1871, 1937, 2002, 2065, 2128>>
PenNum(c, n) == CASE c.alpha = "0" -> 1 [] c.alpha = "1" -> 5 + n [] OTHER -> Pow06[n]
PenDen(c) == CASE c.alpha = "0" -> 1 [] c.alpha = "1" -> 6 [] OTHER -> 1000
(* scores are compared in units of 1e-4 *)
Coarse(x) == x \div 10
Root(c, r) == [seq |-> [p \in 1..r.start |-> r.prompt[p + 1]],
               h |-> Carried(c, r, [p \in 1..r.start |-> r.prompt[p + 1]], r.start), seen |-> 0, lp |-> 0]
LastTok(r, y) == IF y.seq = <<>> THEN r.prompt[1] ELSE y.seq[Len(y.seq)]
Fed(r, y) == LET n == Len(y.seq) IN
  [y EXCEPT !.h = Feed(y.h, LastTok(r, y), n), !.seen = y.seen + LastTok(r, y) * (n - r.start + 1)]
Weights(c, f) == c.table[((f.h + f.seen) % M) + 1]
Force(c, r, y) == LET f == Fed(r, y) IN [f EXCEPT !.seq = Append(y.seq, r.prompt[Len(y.seq) + 2]), !.lp = 0]
Extend(c, r, y) ==
  LET f == Fed(r, y)
      w == Weights(c, f)
      t == Ln(SumOver(w, DOMAIN w))
  IN {[f EXCEPT !.seq = Append(y.seq, i - 1), !.lp = y.lp + Ln(w[i]) - t] : i \in Positive(w)}
Finished(c, y) == y.seq[Len(y.seq)] = c.eos
BetterLp(x, y) == x.lp > y.lp
BetterScore(c, x, y) == Coarse(x.lp) * PenNum(c, Len(y.seq)) > Coarse(y.lp) * PenNum(c, Len(x.seq))
TopLp(S, n) == {x \in S : Cardinality({y \in S : BetterLp(y, x)}) < n}
TopScore(c, S, n) == {x \in S : Cardinality({y \in S : BetterScore(c, y, x)}) < n}
(* a cut between hypotheses that are too close to tell apart *)
BlurLp(S, n) == LET T == TopLp(S, n) IN \/ Cardinality(T) > n
                                        \/ \E x \in T, y \in S \ T : x.lp - y.lp <= 40
BlurScore(c, S, n) ==
  LET T == TopScore(c, S, n) IN
  \/ Cardinality(T) > n
  \/ \E x \in T, y \in S \ T :
       Coarse(x.lp) * PenNum(c, Len(y.seq)) - Coarse(y.lp) * PenNum(c, Len(x.seq))
         <= 60 * PenNum(c, Len(x.seq))
Forced(c, r, p) == p < c.len /\ p > r.start /\ r.prompt[p + 1] # 0
(* one step: the new token is at position p *)
Step(c, r, s, p) ==
  IF Forced(c, r, p) THEN [s EXCEPT !.live = {Force(c, r, y) : y \in s.live}]
  ELSE LET cand == UNION {Extend(c, r, y) : y \in s.live}
           top == TopLp(cand, 2 * c.beams)
           open == {y \in top : ~Finished(c, y)}
           fin == s.fin \cup (top \ open)
       IN [live |-> TopLp(open, c.beams), fin |-> TopScore(c, fin, c.beams),
           blur |-> s.blur \/ BlurLp(cand, 2 * c.beams) \/ BlurLp(open, c.beams) \/ BlurScore(c, fin, c.beams)]
Start(c, r) == [live |-> {Root(c, r)}, fin |-> {}, blur |-> FALSE]
(* the last position: all rows make as many steps *)
Last(c, r) == LET n == c.limit - c.least + r.start IN
  IF c.maxstep > 0 /\ r.start + c.maxstep < n THEN r.start + c.maxstep ELSE n
Run(c, r) == LET RECURSIVE Go(_, _)
                 Go(s, p) == IF p > Last(c, r) THEN s ELSE Go(Step(c, r, s, p), p + 1)
             IN Go(Start(c, r), r.start + 1)
Answer(s) == IF s.fin # {} THEN s.fin ELSE s.live
(* no hypothesis that still lives can displace a finished one *)
Settled(c, s) == /\ Cardinality(s.fin) = c.beams
                 /\ \A x \in s.fin, y \in s.live :
                      Coarse(x.lp) * PenNum(c, c.limit + 1) > Coarse(y.lp) * PenNum(c, Len(x.seq))

(* Judging a recorded call.  Scores below -1e6 mark slots without hypothesis.   *)
Padded(c, q) == [p \in 1..c.limit |-> IF p <= Len(q) THEN q[p] ELSE 0]
ScoreOk(c, s, y, done) ==
  IF done
  THEN LET d == s * PenNum(c, Len(y.seq)) - Coarse(y.lp) * PenDen(c)
           tol == (15 + (0 - Coarse(y.lp)) \div 800) * PenNum(c, Len(y.seq))
       IN d <= tol /\ -d <= tol
  ELSE s - Coarse(y.lp) <= 15 /\ Coarse(y.lp) - s <= 15
(* the hypothesis an output stands for, following the model; <<>> if none *)
Follow(c, r, out) ==
  LET RECURSIVE Go(_, _)
      Go(y, p) ==
        IF p > Last(c, r) \/ p > c.limit THEN <<y>>
        ELSE IF Forced(c, r, p) THEN IF out[p] = r.prompt[p + 1] THEN Go(Force(c, r, y), p + 1) ELSE <<>>
        ELSE LET e == {z \in Extend(c, r, y) : z.seq[p] = out[p]} IN
             IF e = {} THEN <<>>
             ELSE LET z == CHOOSE z \in e : TRUE IN IF Finished(c, z) THEN <<z>> ELSE Go(z, p + 1)
  IN IF \E p \in 1..r.start : p <= c.limit /\ out[p] # r.prompt[p + 1] THEN <<>> ELSE Go(Root(c, r), r.start + 1)
Real(r, d) == ~r.filler[d]
Cut(c, r) == Last(c, r) > c.limit
Generic(c, r) ==
  LET ds == {d \in DOMAIN r.out : Real(r, d)}
      f == [d \in ds |-> Follow(c, r, r.out[d])]
  IN /\ ds # {}
     /\ \A d \in ds : d + 1 \in DOMAIN r.out => d + 1 \in ds
     /\ \A d \in ds : d - 1 \in ds => r.score[d - 1] <= r.score[d]
     /\ \A d \in ds :
          /\ f[d] # <<>>
          /\ r.out[d] = Padded(c, f[d][1].seq)
          /\ LET y == f[d][1] IN
             \/ Finished(c, y) /\ Len(y.seq) > r.start /\ ScoreOk(c, r.score[d], y, TRUE)
             \/ Cut(c, r) /\ Len(y.seq) = c.limit
             \/ /\ ~Finished(c, y) /\ ScoreOk(c, r.score[d], y, FALSE)
                /\ \A e \in ds : ~Finished(c, f[e][1])
     /\ ~Cut(c, r) => \A d, e \in ds : d # e => r.out[d] # r.out[e]
Exact(c, r) ==
  LET s == Run(c, r) IN
  s.blur \/
  LET ans == Answer(s)
      ds == {d \in DOMAIN r.out : Real(r, d)}
      Same(d, y) == r.out[d] = Padded(c, y.seq) /\ ScoreOk(c, r.score[d], y, s.fin # {})
  IN /\ Cardinality(ds) = Cardinality(ans)
     /\ \A d \in ds : \E y \in ans : Same(d, y)
     /\ \A y \in ans : \E d \in ds : Same(d, y)
(* hypotheses of equal score come in any order *)
Range(f) == {f[d] : d \in DOMAIN f}
Blurred(c) == Cardinality({n \in DOMAIN c.rows : Run(c, c.rows[n]).blur})
Sharp(c) == Blurred(c) = 0
OkBeam(c) ==
  /\ \A n \in DOMAIN c.rows : Generic(c, c.rows[n]) /\ Exact(c, c.rows[n])
  /\ \A n \in DOMAIN c.kept : c.kept[n] = <<>> \/ Range(c.kept[n]) = Range(c.rows[n].out)
=============================================================================
