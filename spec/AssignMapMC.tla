---------------------------- MODULE AssignMapMC ----------------------------
(* Design check: all small checkpoints, targets and rule lists, built up   *)
(* step by step.                                                           *)
EXTENDS AssignMap, TLC
CONSTANTS MaxRules
Leaf == {"w", "b"}
Mod == {"x", "y"}
AllNames == {<<m, l>> : m \in Mod, l \in Leaf}
Pats == {<<m, l>> : m \in Mod \cup {"*"}, l \in Leaf \cup {"*", "**"}} \cup {<<"**">>}
NWild(p) == Cardinality({i \in DOMAIN p : p[i] \in {"*", "**"}})
Repls(p) == {<<m, l>> : m \in Mod \cup (IF NWild(p) > 0 THEN {"$1"} ELSE {}), l \in Leaf}
              \cup (IF NWild(p) > 1 THEN {<<"$2", "$1">>, <<"$1", "$2">>} ELSE {})
Rules == UNION {{[pat |-> p, none |-> FALSE, repl |-> r] : r \in Repls(p)} : p \in Pats}
           \cup {[pat |-> p, none |-> TRUE, repl |-> <<>>] : p \in Pats}
VARIABLES ck, opt, rules, phase
vars == <<ck, opt, rules, phase>>
Vals(S) == {[k |-> n, v |-> n] : n \in S}
Init == /\ phase = "build" /\ rules = <<>>
        /\ ck \in {Vals(S) : S \in SUBSET AllNames}
        /\ opt \in (SUBSET AllNames) \ {{}}
AddRule == /\ phase = "build" /\ Len(rules) < MaxRules
           /\ \E r \in Rules : rules' = Append(rules, r)
           /\ UNCHANGED <<ck, opt, phase>>
Done == phase = "build" /\ phase' = "done" /\ UNCHANGED <<ck, opt, rules>>
Spec == Init /\ [][AddRule \/ Done]_vars

Res == Apply(ck, opt, rules, FALSE, FALSE)
\* No leaf is invented: every value of the result is in the checkpoint.
NoInvention == ~Res.err => \A r \in Res.res : r.v \in Names(ck)
\* Names are unique, unmatched targets keep their name's value.
Functional == ~Res.err => \A r, s \in Res.res : r.k = s.k => r = s
KeepSame == ~Res.err => \A t \in opt : First(rules, t) = 0 /\ t \in Names(ck)
                          => [k |-> t, v |-> t] \in Res.res
Assigned == ~Res.err => \A t \in opt : First(rules, t) # 0 /\ ~rules[First(rules, t)].none
                          => [k |-> t, v |-> Source(rules, t)] \in Res.res
SkipLeaves == ~Res.err => \A t \in opt : First(rules, t) # 0 /\ rules[First(rules, t)].none
                          => t \notin Names(Res.res)
\* Nothing is dropped: an entry of the checkpoint is still there, was consumed
\* by a rule, or its name was taken by a rule.
NoLoss == ~Res.err => \A r \in ck :
             r \in Res.res \/ r.k \in Skipped(opt, rules) \cup Mapped(opt, rules)
             \/ \E t \in Mapped(opt, rules) : Source(rules, t) = r.k
FallbackComplete ==
  LET fb == {[k |-> n, v |-> <<"fresh", n[1], n[2]>>] : n \in opt}
      f == Restore(ck, opt, rules, FALSE, TRUE, fb)
  IN ~f.err => Names(f.res) = opt
=============================================================================
