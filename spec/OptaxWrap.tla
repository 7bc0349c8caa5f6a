------------------------------- MODULE OptaxWrap -------------------------------
(* Training with an Optax optimizer (C30).  An optimizer is a composition        *)
(* [k, c, d, of, on]: its kind, two numbers, what it is composed of and the      *)
(* parameters it selects.  Its state is a function of places (where a train      *)
(* state's dictionary has them) to values; S: the parameters it sees.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[i] : i \in DOMAIN q}
At(pre, S, v) == [x \in {pre \o s : s \in S} |-> v]
One(path, v) == [x \in {path} |-> v]
None == [x \in {} |-> 0]
Cut(f, S) == [x \in S |-> f[x]]
Num(i) == ToString(i)
(* the places of a state, with the parameter each mirrors ("" if none)           *)
RECURSIVE Places(_, _, _), Links(_, _, _, _)
Links(os, i, pre, S) == IF i > Len(os) THEN {}
                        ELSE Places(os[i], pre \o Num(i - 1) \o "/", S) \cup Links(os, i + 1, pre, S)
Like(pre, S) == {<<pre \o s, s>> : s \in S}
Lone(path) == {<<path, "">>}
Places(o, pre, S) ==
  CASE o.k \in {"scale", "decay"} -> {}
    [] o.k = "trace" -> Like(pre \o "trace/", S)
    [] o.k = "sched" -> Lone(pre \o "count")
    (* unknown to T5X, so replicated *)
    [] o.k = "every" -> Lone(pre \o "count") \cup {<<x[1], "">> : x \in Like(pre \o "grad_acc/", S)}
    [] o.k = "steps" -> Lone(pre \o "mini_step") \cup Lone(pre \o "gradient_step") \cup Like(pre \o "acc_grads/", S)
                        \cup Places(o.of[1], pre \o "inner_opt_state/", S)
    [] o.k = "cond" -> Lone(pre \o "step") \cup Places(o.of[1], pre \o "inner_state/", S)
    [] o.k = "finite" -> Lone(pre \o "notfinite_count") \cup Lone(pre \o "last_finite") \cup Lone(pre \o "total_notfinite")
                         \cup Places(o.of[1], pre \o "inner_state/", S)
    [] o.k = "mask" -> Places(o.of[1], pre \o "inner_state/", S \cap Range(o.on))
    [] o.k = "multi" -> Places(o.of[1], pre \o "inner_states/x/inner_state/", S \cap Range(o.on))
                        \cup Places(o.of[2], pre \o "inner_states/y/inner_state/", S \ Range(o.on))
    [] o.k = "chain" -> Links(o.of, 1, pre, S)
(* the state at first *)
Start(o, S) == [x \in {q[1] : q \in Places(o, "", S)} |-> 0]
RECURSIVE Ones(_, _), OnesOf(_, _, _)
OnesOf(os, i, pre) == IF i > Len(os) THEN {} ELSE Ones(os[i], pre \o Num(i - 1) \o "/") \cup OnesOf(os, i + 1, pre)
Ones(o, pre) ==
  CASE o.k = "finite" -> {pre \o "last_finite"} \cup Ones(o.of[1], pre \o "inner_state/")
    [] o.k = "steps" -> Ones(o.of[1], pre \o "inner_opt_state/")
    [] o.k \in {"cond", "mask"} -> Ones(o.of[1], pre \o "inner_state/")
    [] o.k = "multi" -> Ones(o.of[1], pre \o "inner_states/x/inner_state/") \cup Ones(o.of[2], pre \o "inner_states/y/inner_state/")
    [] o.k = "chain" -> OnesOf(o.of, 1, pre)
    [] OTHER -> {}
First(o, S) == LET one == Ones(o, "") IN [x \in DOMAIN Start(o, S) |-> IF x \in one THEN 1 ELSE 0]
(* one update: gradients g of S, parameters p, the whole state st; bad: some     *)
(* gradient is not finite.  Gives the updates u and the new state st.            *)
RECURSIVE Up(_, _, _, _, _, _, _), Run(_, _, _, _, _, _, _, _)
Run(os, i, pre, st, g, p, S, bad) ==
  IF i > Len(os) THEN [u |-> g, st |-> st]
  ELSE LET r == TLCEval(Up(os[i], pre \o Num(i - 1) \o "/", st, g, p, S, bad))
       IN Run(os, i + 1, pre, r.st, r.u, p, S, bad)
Up(o, pre, st, g, p, S, bad) ==
  CASE o.k = "scale" -> [u |-> [s \in S |-> o.c * g[s]], st |-> st]
    [] o.k = "decay" -> [u |-> [s \in S |-> g[s] + o.c * p[s]], st |-> st]
    [] o.k = "trace" -> LET t == TLCEval([s \in S |-> g[s] + o.c * st[pre \o "trace/" \o s]])
                        IN [u |-> IF o.d = 1 THEN [s \in S |-> g[s] + o.c * t[s]] ELSE t,
                            st |-> [x \in {pre \o "trace/" \o s : s \in S} |-> t[CHOOSE s \in S : x = pre \o "trace/" \o s]] @@ st]
    [] o.k = "sched" -> [u |-> [s \in S |-> (st[pre \o "count"] + o.c) * g[s]],
                         st |-> One(pre \o "count", st[pre \o "count"] + 1) @@ st]
    [] o.k = "every" -> LET n == st[pre \o "count"]
                            a == TLCEval([s \in S |-> (IF n # 0 THEN st[pre \o "grad_acc/" \o s] ELSE 0) + g[s]])
                        IN [u |-> [s \in S |-> IF n = o.c - 1 THEN a[s] ELSE 0],
                            st |-> One(pre \o "count", (n + 1) % o.c) @@
                                   [x \in {pre \o "grad_acc/" \o s : s \in S} |-> a[CHOOSE s \in S : x = pre \o "grad_acc/" \o s]] @@ st]
    [] o.k = "steps" -> LET n == st[pre \o "mini_step"] emit == (n = o.c - 1)
                            a == TLCEval([s \in S |-> st[pre \o "acc_grads/" \o s] + g[s]])
                            r == TLCEval(Up(o.of[1], pre \o "inner_opt_state/", st, a, p, S, bad))
                            base == IF emit THEN r.st ELSE st
                        IN [u |-> [s \in S |-> IF emit THEN r.u[s] ELSE 0],
                            st |-> One(pre \o "mini_step", (n + 1) % o.c) @@
                                   One(pre \o "gradient_step", st[pre \o "gradient_step"] + (IF emit THEN 1 ELSE 0)) @@
                                   [x \in {pre \o "acc_grads/" \o s : s \in S} |->
                                      IF emit THEN 0 ELSE a[CHOOSE s \in S : x = pre \o "acc_grads/" \o s]] @@ base]
    [] o.k = "cond" -> LET n == st[pre \o "step"]
                           r == IF n >= o.c THEN TLCEval(Up(o.of[1], pre \o "inner_state/", st, g, p, S, bad)) ELSE [u |-> g, st |-> st]
                       IN [u |-> r.u, st |-> One(pre \o "step", n + 1) @@ r.st]
    [] o.k = "finite" -> LET r == IF bad THEN [u |-> [s \in S |-> 0], st |-> st]
                                  ELSE TLCEval(Up(o.of[1], pre \o "inner_state/", st, g, p, S, bad))
                         IN [u |-> r.u,
                             st |-> One(pre \o "notfinite_count", IF bad THEN st[pre \o "notfinite_count"] + 1 ELSE 0) @@
                                    One(pre \o "last_finite", IF bad THEN 0 ELSE 1) @@
                                    One(pre \o "total_notfinite", st[pre \o "total_notfinite"] + (IF bad THEN 1 ELSE 0)) @@ r.st]
    [] o.k = "mask" -> LET M == S \cap Range(o.on) r == TLCEval(Up(o.of[1], pre \o "inner_state/", st, Cut(g, M), p, M, bad))
                       IN [u |-> r.u @@ g, st |-> r.st]
    [] o.k = "multi" -> LET M == S \cap Range(o.on) N == S \ M
                            r == TLCEval(Up(o.of[1], pre \o "inner_states/x/inner_state/", st, Cut(g, M), p, M, bad))
                            q == TLCEval(Up(o.of[2], pre \o "inner_states/y/inner_state/", r.st, Cut(g, N), p, N, bad))
                        IN [u |-> r.u @@ q.u, st |-> q.st]
    [] o.k = "chain" -> Run(o.of, 1, pre, st, g, p, S, bad)
(* one step of training *)
Trained(o, job, g, bad) ==
  LET r == TLCEval(Up(o, "", job.st, g, job.p, DOMAIN g, bad))
  IN [p |-> TLCEval([s \in DOMAIN g |-> job.p[s] + r.u[s]]), st |-> TLCEval(r.st), n |-> job.n + 1]
Begin(o, p) == [p |-> p, st |-> First(o, DOMAIN p), n |-> 0]
=============================================================================
