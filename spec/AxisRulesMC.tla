----------------------------- MODULE AxisRulesMC -----------------------------
(* Rules applied one by one to the dimensions of an array. *)
EXTENDS AxisRules
CONSTANTS Names, Axes, MaxRules, MaxDims
VARIABLES names, rules, k, st
vars == <<names, rules, k, st>>
Tos == {<<>>} \cup {<<a>> : a \in Axes} \cup {<<a, b>> : a \in Axes, b \in Axes}
TosOk == {t \in Tos : Len(t) < 2 \/ t[1] # t[2]}
Rules == [name : Names, to : TosOk]
UpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}
Init == /\ names \in {n \in UpTo(Names \cup {""}, MaxDims) : ~Twice(n)} /\ rules \in UpTo(Rules, MaxRules)
        /\ k = 0 /\ st = Fresh(names)
Next == k < Len(rules) /\ k' = k + 1 /\ st' = Rule(names, st, rules[k + 1]) /\ UNCHANGED <<names, rules>>
Spec == Init /\ [][Next]_vars
(* no mesh axis is used by two dimensions *)
Apart == \A i \in DOMAIN names : \A j \in DOMAIN names : i # j => Range(st.res[i]) \cap Range(st.res[j]) = {}
(* what was assigned stays; a decided dimension is decided by the first applicable rule *)
Stays == [][\A i \in st.set : st'.res[i] = st.res[i]]_vars
Used0(i, j) == UNION {Range(Fold(names, Fresh(names), SubSeq(rules, 1, j - 1)).res[d]) : d \in DOMAIN names}
Applicable(i, j) == rules[j].name = names[i] /\ Range(rules[j].to) \cap Used0(i, j) = {}
FirstOne == \A i \in DOMAIN names : names[i] # "" =>
  LET A == {j \in 1..k : Applicable(i, j)}
  IN IF A = {} THEN i \notin st.set /\ st.res[i] = <<>>
     ELSE i \in st.set /\ st.res[i] = rules[First(A)].to
Same == k = Len(rules) => st.res = Mapped(names, rules)
=============================================================================
