------------------------------ MODULE AxisRules ------------------------------
(* Logical axis names to mesh axes by ordered rules (C15).  A rule is           *)
(* [name, to]: to is a sequence of mesh axes, <<>> for an explicit null rule.   *)
(* "" is a dimension without a name.  A result is a sequence of mesh axes per   *)
(* dimension, <<>> where it is replicated.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Set(n, r) == [n EXCEPT !.res = r]
Fresh(names) == [res |-> [i \in DOMAIN names |-> <<>>], set |-> {i \in DOMAIN names : names[i] = ""}]
Used(st) == UNION {Range(st.res[i]) : i \in DOMAIN st.res}
(* one rule: the dimension of its name, if still open, takes its axes if all are free *)
Rule(names, st, r) ==
  IF \E i \in DOMAIN names : names[i] = r.name /\ i \notin st.set /\ Range(r.to) \cap Used(st) = {}
  THEN LET i == CHOOSE i \in DOMAIN names : names[i] = r.name
       IN [res |-> [st.res EXCEPT ![i] = r.to], set |-> st.set \cup {i}]
  ELSE st
RECURSIVE Fold(_, _, _)
Fold(names, st, rules) == IF rules = <<>> THEN st ELSE Fold(names, Rule(names, st, Head(rules)), Tail(rules))
Mapped(names, rules) == Fold(names, Fresh(names), rules).res
Twice(names) == \E i \in DOMAIN names : \E j \in DOMAIN names : i # j /\ names[i] = names[j] /\ names[i] # ""
----------------------------------------------------------------------------
(* observations of get_mesh_axes: per parameter its names (or none) and the spec found *)
MeshOk(c) ==
  IF \E i \in DOMAIN c.params : c.params[i].named /\ Twice(c.params[i].names) THEN c.raised
  ELSE ~c.raised /\ c.paths /\ \A i \in DOMAIN c.params :
         LET p == c.params[i] IN IF p.named THEN p.isspec /\ p.spec = Mapped(p.names, c.rules) ELSE ~p.isspec
(* overrides: the first pattern that matches the whole path replaces the names; nothing else changes *)
First(S) == CHOOSE x \in S : \A y \in S : x <= y
OverrideOk(c) ==
  LET Hit(p) == {k \in DOMAIN c.patterns : k \in Range(p.matches)}
      Bad == {i \in DOMAIN c.params : Hit(c.params[i]) # {} /\ Len(c.patterns[First(Hit(c.params[i]))]) # c.params[i].rank}
  IN IF c.noaxes \/ Bad # {} THEN c.raised
     ELSE /\ ~c.raised /\ c.rest /\ Len(c.after) = Len(c.params)
          /\ \A i \in DOMAIN c.params :
               LET p == c.params[i] IN
               IF Hit(p) # {} THEN c.after[i] = [there |-> TRUE, names |-> c.patterns[First(Hit(p))]]
               ELSE c.after[i] = [there |-> p.there, names |-> p.names]
(* the standard rules, for every way of parallelism: what each kind of array is sharded over *)
Model == {"vocab", "mlp", "heads", "joined_kv"}
Plain == {"kv", "relpos_buckets", "abspos_buckets", "length", "layers", "stack", "mlp_activations"}
StandardOk(c) ==
  IF c.act \notin {1, 2} \/ c.par \notin {1, 2} THEN c.raised
  ELSE LET emb(used) == IF c.act = 2 /\ "model" \notin used THEN <<"model">>
                        ELSE IF c.par = 2 /\ "data" \notin used THEN <<"data">> ELSE <<>>
           other == {i \in DOMAIN c.names : c.names[i] # "embed"}
           one(i) == IF c.names[i] = "batch" THEN <<"data">> ELSE IF c.names[i] \in Model THEN <<"model">> ELSE <<>>
           used == UNION {Range(one(i)) : i \in other}
       IN ~c.raised /\ c.spec = [i \in DOMAIN c.names |-> IF i \in other THEN one(i) ELSE emb(used)]
Ok(c) == IF c.kind = "mesh" THEN MeshOk(c) ELSE IF c.kind = "override" THEN OverrideOk(c) ELSE StandardOk(c)
=============================================================================
