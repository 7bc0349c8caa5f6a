---------------------------- MODULE T5ImportCases ----------------------------
(* What imports of real checkpoints gave (C29). *)
EXTENDS T5Import
Range(q) == {q[i] : i \in DOMAIN q}
(* a case: arch, slots, factored; tensors: their names; state: places of the     *)
(* model; got: <<place, tensor>> ("?": neither zero nor any tensor)              *)
Wanted(c) == LET E == Expected(c.arch, c.slots, Range(c.factored))
             IN IF c.strict THEN E ELSE {x \in E : x[1] \in Range(c.state)}
Ok(c) ==
  LET W == Wanted(c) S == Range(c.state)
      missing == S \ {x[1] : x \in W}
      bad == c.unknown \/ (c.badshape # "" /\ c.badshape \in {x[1] : x \in W}) \/ {x[1] : x \in W} \ S # {}
  IN (* the file is one of that architecture *)
     /\ (Range(c.tensors) \cup {""}) = {x[2] : x \in Expected(c.arch, c.slots, Range(c.factored))} \cup {"", "global_step"}
     /\ IF bad \/ (c.whole /\ missing # {}) THEN c.raised
        ELSE ~c.raised /\ Range(c.got) = W /\ Cardinality(Range(c.got)) = Len(c.got) /\ c.dtypes /\ c.placed
=============================================================================
