------------------------------ MODULE Attention ------------------------------
(* Which tokens an output may depend on.  A row has decoder places              *)
(* [real, seg, bi] and encoder places [real, seg]; bi marks the part of a       *)
(* prefix that sees itself in both directions.                                  *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
SeesDec(c, i, j) ==
  /\ j <= i \/ (c.bidir /\ c.dec[i].bi /\ c.dec[j].bi)
  /\ c.dec[i].real /\ c.dec[j].real
  /\ c.packed => c.dec[i].seg = c.dec[j].seg
SeesEnc(c, i, j) == c.enc[i].real /\ c.enc[j].real /\ (c.packed => c.enc[i].seg = c.enc[j].seg)
SeesCross(c, i, j) == c.dec[i].real /\ c.enc[j].real /\ (c.packed => c.dec[i].seg = c.enc[j].seg)
(* what has reached place i after l layers *)
RECURSIVE EncInfo(_, _, _)
EncInfo(c, l, i) == IF l = 0 THEN {i}
                    ELSE EncInfo(c, l - 1, i) \cup UNION {EncInfo(c, l - 1, j) : j \in {j \in DOMAIN c.enc : SeesEnc(c, i, j)}}
RECURSIVE DecInfo(_, _, _)
DecInfo(c, l, i) == IF l = 0 THEN {i}
                    ELSE DecInfo(c, l - 1, i) \cup UNION {DecInfo(c, l - 1, j) : j \in {j \in DOMAIN c.dec : SeesDec(c, i, j)}}
RECURSIVE CrossInfo(_, _, _)
CrossInfo(c, l, i) ==
  IF l = 0 THEN {}
  ELSE CrossInfo(c, l - 1, i)
       \cup UNION {CrossInfo(c, l - 1, j) : j \in {j \in DOMAIN c.dec : SeesDec(c, i, j)}}
       \cup UNION {EncInfo(c, c.layers, k) : k \in {k \in DOMAIN c.enc : SeesCross(c, i, k)}}

(* a measured dependency matrix: how outputs changed with tokens (0 not at all, *)
(* 2 clearly), and with the identity of targets                                 *)
Agrees(m, reach, exact) == IF m = 0 THEN ~(exact /\ reach) ELSE (m = 2 => reach)
OkDep(c) ==
  \A i \in DOMAIN c.dec : c.dec[i].real =>
    /\ \A j \in DOMAIN c.dec : Agrees(c.fromdec[i][j], j \in DecInfo(c, c.layers, i), c.exact) /\ c.fromtgt[i][j] = 0
    /\ \A k \in DOMAIN c.enc : c.enc[k].real => Agrees(c.fromenc[i][k], k \in CrossInfo(c, c.layers, i), c.exact)

(* logits (units of 1e-5) of one computation against another *)
NearRow(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 60 + Abs(b[i]) \div 2000
OkSame(c) == /\ Len(c.got) = Len(c.want)
             /\ \A i \in DOMAIN c.got : NearRow(c.got[i], c.want[i])

(* the prompt handed to the decoding function, and what becomes of its answer   *)
PromptOf(c, p) == CASE c.arch = "encdec" -> IF c.with /\ c.input[p] # c.eos THEN c.input[p] ELSE 0
                    [] c.arch = "dec" -> IF c.bi[p] THEN c.input[p] ELSE 0
PromptLen(c) == Cardinality({p \in 2..Len(c.input) : PromptOf(c, p) # 0})
Cut(c, s) == IF c.arch = "encdec" THEN s
             ELSE LET k == PromptLen(c) n == Len(s) IN [p \in 1..n |-> IF p + k <= n THEN s[p + k] ELSE 0]
OkPrompt(c) ==
  /\ c.prompt = [p \in DOMAIN c.input |-> PromptOf(c, p)]
  /\ c.index = (IF c.arch = "encdec" THEN -1 ELSE PromptLen(c))
  /\ IF c.all THEN c.result = [d \in DOMAIN c.answers |-> Cut(c, c.answers[d])]
     ELSE c.result = <<Cut(c, c.answers[Len(c.answers)])>>
  /\ c.scores = (IF c.all THEN c.given ELSE <<c.given[Len(c.given)]>>)

(* a decoded sequence: the prompt, then tokens with their log probabilities     *)
(* under the full computation (lp[p][token + 1]) up to the first end token      *)
Given(c, p) == p <= c.known
EndsAt(c) == LET E == {p \in DOMAIN c.toks : ~Given(c, p) /\ c.toks[p] = c.eos}
             IN IF E = {} THEN Len(c.toks) ELSE CHOOSE p \in E : \A q \in E : p <= q
RECURSIVE SumTo(_, _, _)
SumTo(c, p, n) == IF p > n THEN 0 ELSE (IF Given(c, p) THEN 0 ELSE c.lp[p][c.toks[p] + 1]) + SumTo(c, p + 1, n)
OkDecode(c) ==
  /\ \A p \in DOMAIN c.toks : Given(c, p) => c.toks[p] = c.prompt[p]
  /\ \A p \in DOMAIN c.toks : ~Given(c, p) /\ p > EndsAt(c) => c.toks[p] = 0
  /\ c.greedy => \A p \in DOMAIN c.toks : ~Given(c, p) /\ p <= EndsAt(c) =>
                   \A t \in DOMAIN c.lp[p] : c.lp[p][t] <= c.lp[p][c.toks[p] + 1] + 100
  /\ LET sum == SumTo(c, 1, EndsAt(c))
         ended == \E p \in DOMAIN c.toks : ~Given(c, p) /\ c.toks[p] = c.eos
     IN IF c.cut /\ ~ended THEN c.score <= sum + 300    \* went on beyond what is shown
        ELSE Abs(c.score - sum) <= 300
Ok(c) == CASE c.kind = "dep" -> OkDep(c) [] c.kind = "same" -> OkSame(c)
           [] c.kind = "prompt" -> OkPrompt(c) [] c.kind = "decode" -> OkDecode(c)
=============================================================================
