------------------------------ MODULE TrainState ------------------------------
(* Train states and their dictionaries.  A state is immutable: every operation  *)
(* makes a new one.  Its parts are p (parameters), o (optimizer state), s       *)
(* (step), m (flax mutables, 0 if it has none) and x (everything that never     *)
(* changes: axis names, optimizer, tree structure).  Values of a part are       *)
(* numbers.  A dictionary holds the same parts but x; dictionaries are mutable  *)
(* and nothing done to one may be seen anywhere else.  An inference state has   *)
(* no optimizer state (o = 0).                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vals, MaxStates, MaxDicts, Kinds
VARIABLES states, dicts, from
vars == <<states, dicts, from>>

New(k) == [kind |-> k, p |-> 1, o |-> IF k = "infer" THEN 0 ELSE 1, s |-> 0, m |-> 1, x |-> k]
Init == /\ \E k \in Kinds : states = <<New(k)>>
        /\ dicts = <<>> /\ from = <<>>

Parts(q) == [p |-> q.p, o |-> q.o, s |-> q.s, m |-> q.m]
DumpOf(q) == Parts(q)
(* what a state becomes when it is restored from a dictionary *)
LoadOf(q, d) == [q EXCEPT !.p = d.p, !.o = IF q.kind = "infer" THEN 0 ELSE d.o, !.s = d.s, !.m = d.m]
CanLoad(q, d) == q.kind = "infer" \/ d.o # 0
EditOf(d, part, v) == [d EXCEPT ![part] = v]
PartsOfDict(d) == {"p", "s"} \cup (IF d.o = 0 THEN {} ELSE {"o"}) \cup {"m"}
(* replacing one part; a training step replaces several *)
WithParams(q, v) == [q EXCEPT !.p = v]
WithMutables(q, v) == [q EXCEPT !.m = v]
WithStep(q, v) == [q EXCEPT !.s = v]
IsStep(q, r, m) == r = [q EXCEPT !.p = r.p, !.o = r.o, !.s = q.s + 1, !.m = m] /\ q.kind = "train"

Put(q) == states' = Append(states, q) /\ UNCHANGED <<dicts, from>>
Room == Len(states) < MaxStates
Dump == \E i \in DOMAIN states : /\ Len(dicts) < MaxDicts
                                 /\ dicts' = Append(dicts, DumpOf(states[i]))
                                 /\ from' = Append(from, i) /\ UNCHANGED states
Edit == \E j \in DOMAIN dicts : \E part \in PartsOfDict(dicts[j]) : \E v \in Vals :
          /\ dicts' = [dicts EXCEPT ![j] = EditOf(@, part, v)]
          /\ from' = [from EXCEPT ![j] = 0] /\ UNCHANGED states
Load == Room /\ \E i \in DOMAIN states, j \in DOMAIN dicts :
          CanLoad(states[i], dicts[j]) /\ Put(LoadOf(states[i], dicts[j]))
Params == Room /\ \E i \in DOMAIN states, v \in Vals : Put(WithParams(states[i], v))
Mutables == Room /\ \E i \in DOMAIN states, v \in Vals \cup {0} : Put(WithMutables(states[i], v))
Step == Room /\ \E i \in DOMAIN states, v \in Vals : Put(WithStep(states[i], v))
Train == Room /\ \E i \in DOMAIN states, v \in Vals, w \in Vals, m \in Vals \cup {0} :
           /\ states[i].kind = "train"
           /\ Put([states[i] EXCEPT !.p = v, !.o = w, !.s = @ + 1, !.m = m])
Next == Dump \/ Edit \/ Load \/ Params \/ Mutables \/ Step \/ Train
Spec == Init /\ [][Next]_vars

(* A dictionary nobody edited still says what its state says, and restoring it  *)
(* into any state of the same kind gives that state.                            *)
RoundTrip == \A j \in DOMAIN dicts : from[j] # 0 =>
               LET q == states[from[j]] IN
               /\ dicts[j] = Parts(q)
               /\ \A i \in DOMAIN states : states[i].kind = q.kind => LoadOf(states[i], dicts[j]) = q
Constant == \A i \in DOMAIN states : states[i].x = states[1].x /\ (states[i].kind = "infer" <=> states[i].o = 0)
Immutable == [][\A i \in DOMAIN states : states'[i] = states[i]]_vars
OneEffect == [][\/ states' = states
                \/ /\ dicts' = dicts
                   /\ \E i \in DOMAIN states : LET r == states'[Len(states')] q == states[i] IN
                        \/ Cardinality({f \in DOMAIN q : q[f] # r[f]}) <= 1
                        \/ r.s = q.s + 1
                        \/ \E j \in DOMAIN dicts : r = LoadOf(q, dicts[j])]_vars

(* The axes of a state: as many leaves, at the same places.  A leaf of a state  *)
(* is [path, part, like, names]: like is the parameter (or mutable) it mirrors  *)
(* in shape, "" if none, and names the names declared for that one.             *)
AxesOk(leaves, axes) ==
  /\ {l.path : l \in leaves} = {a.path : a \in axes}
  /\ Cardinality({a.path : a \in axes}) = Cardinality(axes)
  /\ \A l \in leaves, a \in axes : l.path = a.path =>
       /\ l.part \in {"p", "m"} => a.names = l.names
       /\ l.part = "s" => a.none
       /\ l.part = "o" /\ l.like # "" => a.names = l.names /\ ~a.none
       /\ l.part = "o" /\ l.rank = 0 => a.none \/ a.names = <<>>
       /\ a.none \/ Len(a.names) = l.rank
=============================================================================
