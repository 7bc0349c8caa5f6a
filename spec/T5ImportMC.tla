------------------------------ MODULE T5ImportMC ------------------------------
(* Tensors are read in any order; whether a relative bias belongs to its layer   *)
(* or to all of them shows only when all have been read.                         *)
EXTENDS T5Import
CONSTANT Layers
VARIABLES arch, todo, got, done
vars == <<arch, todo, got, done>>
Archs == {a \in [kind : {"encdec", "lm"}, enc : Layers, dec : Layers, shared : BOOLEAN, own : BOOLEAN, gated : BOOLEAN, logits : BOOLEAN,
                 norm : {"layer_norm"}, final : {"final_layer_norm"}] :
            /\ (a.own => (a.dec > 1 \/ (a.kind = "encdec" /\ a.enc > 1)))
            /\ (a.kind = "lm" => a.enc = 0) /\ (a.kind = "encdec" => a.enc > 0) /\ a.dec > 0}
Biases(a) == UNION {{[t |-> t, i |-> i, x |-> Bias(a, t, i)] : i \in 0..(IF a.own THEN Depth(a, t) - 1 ELSE 0)} : t \in Towers(a)}
Init == /\ arch \in Archs /\ got = {} /\ done = FALSE /\ todo = {b.x.tf : b \in Biases(arch)}
(* at first every bias is taken for one of its layer *)
Read == \E n \in todo : \E b \in {x \in Biases(arch) : x.x.tf = n} :
          /\ todo' = todo \ {n} /\ got' = got \cup {[t |-> b.t, i |-> b.i, layer |-> TRUE]}
          /\ UNCHANGED <<arch, done>>
Settle == /\ todo = {} /\ ~done /\ done' = TRUE
          /\ got' = IF \A g \in got : g.i = 0 THEN {[g EXCEPT !.layer = FALSE] : g \in got} ELSE got
          /\ UNCHANGED <<arch, todo>>
Next == Read \/ Settle
Spec == Init /\ [][Next]_vars
Name(g) == g.t \o (IF g.layer THEN "/layers_" \o ToString(g.i) ELSE "") \o "/relpos_bias/rel_embedding"
Right == done => {Name(g) : g \in got} = {b.x.to : b \in Biases(arch)}
(* no two tensors belong in one place, nor one tensor in two *)
OneToOne == (got = {}) => LET P == Params(arch) E == Expected(arch, TRUE, {p.to : p \in P}) IN
              /\ Cardinality({p.tf : p \in P}) = Cardinality(P) /\ Cardinality({p.to : p \in P}) = Cardinality(P)
              /\ Cardinality({e[1] : e \in E}) = Cardinality(E)
=============================================================================
