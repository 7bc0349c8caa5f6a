----------------------------- MODULE AssignMap -----------------------------
(***************************************************************************)
(* Checkpoint state surgery (C06): assignment maps, merging, intersecting, *)
(* and restoring through them with a fallback state.                       *)
(*                                                                         *)
(* A state is a set of [k, v] records: k a name (sequence of components),  *)
(* v the identity of the value.  A rule is [pat, none, repl]: pat is a     *)
(* sequence of components in which "*" stands for one component and "**"   *)
(* (last) for one or more; repl is a sequence of components in which "$1", *)
(* "$2" stand for what the first, second wildcard matched; none = TRUE     *)
(* means "leave the fresh initialisation".                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Names(S) == {r.k : r \in S}
At(S, name) == (CHOOSE r \in S : r.k = name).v

Rest(p) == Len(p) > 0 /\ p[Len(p)] = "**"
Matches(p, name) ==
  IF Rest(p)
  THEN /\ Len(name) >= Len(p)
       /\ \A i \in 1..(Len(p) - 1) : p[i] \in {"*", name[i]}
  ELSE /\ Len(name) = Len(p)
       /\ \A i \in 1..Len(p) : p[i] \in {"*", name[i]}

RECURSIVE Groups(_, _, _)
Groups(p, name, i) ==
  IF i > Len(p) THEN <<>>
  ELSE IF p[i] = "**" THEN <<SubSeq(name, i, Len(name))>>
  ELSE IF p[i] = "*" THEN <<<<name[i]>>>> \o Groups(p, name, i + 1)
  ELSE Groups(p, name, i + 1)

RECURSIVE Fill(_, _, _)
Fill(repl, g, i) ==
  IF i > Len(repl) THEN <<>>
  ELSE (IF repl[i] = "$1" THEN g[1] ELSE IF repl[i] = "$2" THEN g[2] ELSE <<repl[i]>>)
       \o Fill(repl, g, i + 1)

First(rules, name) ==   \* number of the first matching rule, 0 if none
  IF \E i \in DOMAIN rules : Matches(rules[i].pat, name)
  THEN CHOOSE i \in DOMAIN rules :
         Matches(rules[i].pat, name) /\ \A j \in 1..(i - 1) : ~Matches(rules[j].pat, name)
  ELSE 0
Source(rules, name) == LET i == First(rules, name)
                       IN Fill(rules[i].repl, Groups(rules[i].pat, name, 1), 1)

Skipped(opt, rules) == {t \in opt : First(rules, t) # 0 /\ rules[First(rules, t)].none}
Mapped(opt, rules) == {t \in opt : First(rules, t) # 0 /\ ~rules[First(rules, t)].none}
Used(opt, rules) == {First(rules, t) : t \in opt} \ {0}

\* Outcome of applying the rules: [err, res].
Apply(ckpt, opt, rules, requireAll, resuming) ==
  IF resuming THEN [err |-> FALSE, res |-> ckpt]
  ELSE LET mapped == Mapped(opt, rules)
           skipped == Skipped(opt, rules)
           sources == {Source(rules, t) : t \in mapped}
           assigned == {[k |-> t, v |-> At(ckpt, Source(rules, t))] : t \in mapped}
           \* entries no rule consumed stay under their own name
           kept == {r \in ckpt : r.k \notin skipped /\ r.k \notin mapped
                                 /\ (r.k \notin sources \/ r.k \in opt)}
       IN IF \E s \in sources : s \notin Names(ckpt) THEN [err |-> TRUE, res |-> {}]
          ELSE IF requireAll /\ Used(opt, rules) # DOMAIN rules THEN [err |-> TRUE, res |-> {}]
          ELSE [err |-> FALSE, res |-> assigned \cup kept]

Intersect(a, b) == {r \in a : r.k \in Names(b)}
Merge(a, b, overwrite) ==
  IF overwrite THEN b \cup {r \in a : r.k \notin Names(b)}
  ELSE a \cup {r \in b : r.k \notin Names(a)}

\* Restoring: every leaf of the job comes from the transformed checkpoint or,
\* if there is one, from the fallback state; nothing else is invented.
Restore(ckpt, opt, rules, requireAll, fallback, fb) ==
  LET t == Apply(ckpt, opt, rules, requireAll, FALSE)
      have == {r \in t.res : r.k \in opt}
  IN IF t.err THEN t
     ELSE IF fallback THEN [err |-> FALSE, res |-> Merge(have, fb, FALSE)]
     ELSE [err |-> Names(have) # opt, res |-> IF Names(have) # opt THEN {} ELSE have]

----------------------------------------------------------------------------
\* Judging one recorded call of the code.
Ok(c) ==
  LET ck == ToSet(c.a)
      res == ToSet(c.res)
      want ==
        CASE c.op = "apply" -> Apply(ck, ToSet(c.opt), c.rules, c.require, c.resuming)
          [] c.op = "intersect" -> [err |-> FALSE, res |-> Intersect(ck, ToSet(c.b))]
          [] c.op = "merge" -> [err |-> FALSE, res |-> Merge(ck, ToSet(c.b), c.overwrite)]
          [] c.op = "restore" -> Restore(ck, ToSet(c.opt), c.rules, c.require, c.fallback, ToSet(c.b))
  IN /\ c.err = want.err
     /\ ~c.err => res = want.res
=============================================================================
