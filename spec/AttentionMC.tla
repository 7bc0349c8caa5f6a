----------------------------- MODULE AttentionMC -----------------------------
(* Decoding with a cache, symbolically: what a layer yields at a place is a     *)
(* term made of the layer below at the places it attends to.  The cache is      *)
(* filled by one pass over the prompt (all but its last token), then token by   *)
(* token; the terms must be those of the computation over the whole sequence.   *)
EXTENDS Attention
CONSTANTS MaxLen, Layers
VARIABLES n, known, bidir, cache, idx, out
vars == <<n, known, bidir, cache, idx, out>>
(* place 1 is the start token, places 2..known+1 the prompt *)
Case(len, real, bi) == [bidir |-> bidir, packed |-> FALSE, layers |-> Layers, enc |-> <<>>,
                        dec |-> [i \in 1..len |-> [real |-> i <= real, seg |-> 0, bi |-> i <= bi]]]
RECURSIVE Term(_, _, _)
Term(c, l, i) == IF l = 0 THEN <<"token", i>>
                 ELSE <<l, Term(c, l - 1, i), {<<i - j, Term(c, l - 1, j)>> : j \in {j \in DOMAIN c.dec : SeesDec(c, i, j)}}>>
Whole == Case(n, n, known + 1)
None == <<"none">>
Init == /\ n \in 1..MaxLen /\ known \in 0..(n - 1) /\ bidir \in BOOLEAN
        /\ cache = [l \in 0..(Layers - 1) |-> [j \in 1..n |-> None]] /\ idx = 0 /\ out = <<>>
(* the mask of this pass knows the start token and the prompt as real tokens *)
Prefill == /\ idx = 0
           /\ LET c == Case(n, known + 1, known + 1) IN
              cache' = [l \in 0..(Layers - 1) |-> [j \in 1..n |-> IF j <= known THEN Term(c, l, j) ELSE None]]
           /\ idx' = known + 1 /\ UNCHANGED <<n, known, bidir, out>>
(* without a pass over the prompt, its tokens are fed one by one: only the same *)
(* if the prompt is not bidirectional                                           *)
Plain == /\ idx = 0 /\ ~bidir /\ idx' = 1 /\ UNCHANGED <<n, known, bidir, cache, out>>
Step == /\ idx \in 1..n
        /\ LET RECURSIVE Own(_)
               Own(l) == IF l = 0 THEN <<"token", idx>>
                         ELSE <<l, Own(l - 1), {<<idx - j, IF j = idx THEN Own(l - 1) ELSE cache[l - 1][j]>> : j \in 1..idx}>>
           IN /\ cache' = [l \in 0..(Layers - 1) |-> [cache[l] EXCEPT ![idx] = Own(l)]]
              /\ out' = Append(out, Own(Layers))
        /\ idx' = idx + 1 /\ UNCHANGED <<n, known, bidir>>
Next == Prefill \/ Plain \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
First == idx - Len(out) - 1          \* places before the first output
SameOutputs == \A k \in DOMAIN out : out[k] = Term(Whole, Layers, First + k)
NoHoles == idx > 0 => \A l \in 0..(Layers - 1), j \in 1..(idx - 1) : cache[l][j] # None
Done == <>(idx = n + 1)
=============================================================================
