------------------------------- MODULE TopMask -------------------------------
(* Which entries top-k and top-p masks keep, for vectors of numbers.  The judge *)
(* operators decide recorded calls of the real functions.                       *)
EXTENDS Integers, Sequences, FiniteSets
SumOver(w, S) == LET RECURSIVE Go(_)
                     Go(Z) == IF Z = {} THEN 0 ELSE LET j == CHOOSE z \in Z : TRUE IN w[j] + Go(Z \ {j})
                 IN Go(S)
Above(w, i) == {j \in DOMAIN w : w[j] > w[i]}
(* fewer than k entries are larger *)
KeepK(x, k) == {i \in DOMAIN x : Cardinality(Above(x, i)) < k}
(* weights w, needed mass num/den of the total *)
KeepP(w, num, den) ==
  LET total == SumOver(w, DOMAIN w) IN {i \in DOMAIN w : den * SumOver(w, Above(w, i)) < num * total}

(* a call: values x (integers), what was kept (unchanged), replaced, in a row *)
OkMask(c) ==
  LET keep == IF c.kind = "k" THEN KeepK(c.x, c.k) ELSE KeepP(c.x, c.num, c.den) IN
  /\ Len(c.out) = Len(c.x)
  /\ \A i \in DOMAIN c.x :
       IF c.out[i] = "same" THEN i \in keep \/ c.zero[i]
       ELSE c.out[i] = "replaced" /\ (i \notin keep \/ c.zero[i])

(* Numbers of 32 bits come as two halves.  An integer is [hi, lo], a float      *)
(* [neg, hi, lo] with the 31 bits below the sign.  Floats smaller than the      *)
(* smallest normal one (hi < 128) count as zero.                                *)
LessEq(a, b) == a.hi < b.hi \/ (a.hi = b.hi /\ a.lo <= b.lo)
Zero(a) == a.hi < 128
SameFloat(a, b) == \/ Zero(a) /\ Zero(b)
                   \/ a.neg = b.neg /\ a.hi = b.hi /\ a.lo = b.lo
OkSearch(c) ==
  IF c.kind = "int"
  THEN IF c.always THEN c.got.hi = -32768 /\ c.got.lo = 0
       ELSE c.got.hi = c.t.hi /\ c.got.lo = c.t.lo
  ELSE SameFloat(c.got, c.t)
Ok(c) == IF c.kind \in {"int", "float"} THEN OkSearch(c) ELSE OkMask(c)
=============================================================================
