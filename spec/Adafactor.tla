------------------------------ MODULE Adafactor ------------------------------
(* The Adafactor optimizer (C27).  A parameter is [shape, x], its elements in    *)
(* row-major order; per element it has the second moments vr, vc (factored: the  *)
(* mean over the column and the row dimensions) or v, and the momentum m.  A     *)
(* parameter's rule says of every dimension what it is: "row", "col", "batch" or *)
(* "none".  Options: <<>> stands for one not given, <<x>> for x.                 *)
EXTENDS Float, FiniteSets, TLC
Has(opt) == opt # <<>>
Get(opt) == opt[1]
Dims(par) == DOMAIN par.shape
RECURSIVE Stride(_, _)
Stride(shape, d) == IF d = Len(shape) THEN 1 ELSE shape[d + 1] * Stride(shape, d + 1)
Size(shape) == IF shape = <<>> THEN 1 ELSE shape[1] * Stride(shape, 1)
Coord(shape, i, d) == ((i - 1) \div Stride(shape, d)) % shape[d]
(* ---- which dimensions are averaged together *)
(* the largest two dimensions, if both are large enough; the later for columns   *)
Largest(shape) == CHOOSE d \in DOMAIN shape : \A e \in DOMAIN shape : shape[e] < shape[d] \/ (shape[e] = shape[d] /\ e <= d)
Second(shape) == CHOOSE d \in DOMAIN shape \ {Largest(shape)} :
                   \A e \in DOMAIN shape \ {Largest(shape)} : shape[e] < shape[d] \/ (shape[e] = shape[d] /\ e <= d)
Unfactored(shape) == [d \in DOMAIN shape |-> "none"]
Heuristic(o, shape) ==
  IF Len(shape) < 2 THEN Unfactored(shape)
  ELSE IF shape[Second(shape)] < o.mindim THEN Unfactored(shape)
  ELSE [d \in DOMAIN shape |-> IF d = Largest(shape) THEN "col" ELSE IF d = Second(shape) THEN "row" ELSE "none"]
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
(* rules by logical axis name: rows without columns (or the reverse) are no rows *)
ByName(names, axes) ==
  LET r == [d \in DOMAIN axes |-> names[axes[d]]]
  IN IF InSeq("row", r) /\ InSeq("col", r) THEN r
     ELSE [d \in DOMAIN r |-> IF r[d] = "batch" THEN "batch" ELSE "none"]
Explicit(o, shape, rule) == IF Len(shape) <= 2 /\ ~InSeq("batch", rule) THEN Heuristic(o, shape) ELSE rule
(* first rule of a list of patterns; a pattern is found in a name if all its     *)
(* segments follow each other in it                                              *)
Found(pat, name) == \E k \in 0..(Len(name) - Len(pat)) : \A i \in DOMAIN pat : pat[i] = name[k + i]
FirstOf(rules, name) == LET is == {i \in DOMAIN rules : Found(rules[i].pat, name)}
                        IN IF is = {} THEN [kind |-> "missing"] ELSE rules[CHOOSE i \in is : \A j \in is : i <= j].to
(* the rules t5x brings along *)
Standard == [vocab |-> "col", embed |-> "row", mlp |-> "col", heads |-> "col", kv |-> "col", joined_kv |-> "col",
             relpos_buckets |-> "none", layers |-> "batch", stack |-> "batch", q_wi_fused |-> "col", o_wo_fused |-> "col",
             multiquery_heads |-> "col", kv_fused |-> "col", layer_norm_scale |-> "none", mlp_activations |-> "col"]
Names(o) == IF o.std THEN Standard ELSE o.names
RuleError == <<"error">>
Rule(o, par) ==
  CASE o.by = "off" -> Unfactored(par.shape)
    [] o.by = "size" -> IF Len(par.shape) > 2 THEN RuleError ELSE Heuristic(o, par.shape)
    [] o.by = "names" -> IF \E d \in DOMAIN par.axes : par.axes[d] \notin DOMAIN Names(o) THEN RuleError
                       ELSE LET r == [d \in DOMAIN par.axes |-> Names(o)[par.axes[d]]] IN
                         IF InSeq("row", r) /\ InSeq("col", r) /\ InSeq("none", r) THEN RuleError
                         ELSE Explicit(o, par.shape, ByName(Names(o), par.axes))
    [] o.by = "map" -> LET t == FirstOf(o.map, par.name) IN
                       IF t.kind = "missing" THEN RuleError
                       ELSE IF t.kind = "none" THEN Unfactored(par.shape)
                       ELSE IF t.kind = "size" THEN IF Len(par.shape) > 2 THEN RuleError ELSE Heuristic(o, par.shape)
                       ELSE IF Len(t.dims) # Len(par.shape) THEN RuleError
                       ELSE Explicit(o, par.shape, t.dims)
Factored(rule) == InSeq("row", rule) /\ InSeq("col", rule)
DimsOf(rule, kinds) == {d \in DOMAIN rule : rule[d] \in kinds}
(* ---- means of elements: those that agree in the dimensions keep *)
KeyOf(shape, keep, i) == LET c(d) == IF d \in keep THEN Coord(shape, i, d) * Stride(shape, d) ELSE 0
                             RECURSIVE Upto(_)
                             Upto(d) == IF d = 0 THEN 0 ELSE Upto(d - 1) + c(d)
                         IN Upto(Len(shape))
RECURSIVE SumOf(_, _, _, _)
SumOf(f, keys, k, i) == IF i = 0 THEN Zero
                        ELSE IF keys[i] = k THEN Add(SumOf(f, keys, k, i - 1), f[i]) ELSE SumOf(f, keys, k, i - 1)
Means(shape, keep, f) ==
  LET n == Size(shape)
      keys == TLCEval([i \in 1..n |-> KeyOf(shape, keep, i)])
      found == TLCEval({keys[i] : i \in 1..n})
      many == Num(n \div Cardinality(found))
      m == TLCEval([k \in found |-> Div(SumOf(f, keys, k, n), many)])
  IN TLCEval([i \in 1..n |-> m[keys[i]]])
Squares(f) == TLCEval([i \in DOMAIN f |-> Mul(f[i], f[i])])
(* ---- one step *)
(* the decay of the second moments at count t = 1, 2, ...: 1 - t^(-exponent)     *)
Power(t, exponent) ==
  CASE exponent = "1" -> Num(t)
    [] exponent = "1/2" -> Sqrt(Num(t))
    [] exponent = "4/5" -> CASE t = 1 -> One [] t = 32 -> Num(16) [] t = 243 -> Num(81)
Mixing(o, step) == Div(One, Power(step - o.offset + 1, o.exponent))
Mix(old, new, w) == Add(Mul(Sub(One, w), old), Mul(w, new))
(* weight decay; an exponent derives it from the learning rate *)
WeightDecay(o, lr) ==
  IF ~Has(o.decayexp) THEN o.decay
  ELSE LET w == IF Has(o.decay) THEN Get(o.decay) ELSE One
           p == CASE Get(o.decayexp) = "1" -> lr [] Get(o.decayexp) = "2" -> Mul(lr, lr)
                  [] Get(o.decayexp) = "1/2" -> Sqrt(lr)
       IN <<Mul(w, p)>>
Scaled(o, par) == IF o.scale.by = "all" THEN o.scale.on ELSE FirstOf(o.scale.map, par.name).on
(* the gradients of all parameters, scaled down to the given norm *)
RECURSIVE SumPars(_, _)
SumPars(f, S) == IF S = {} THEN Zero ELSE LET p == CHOOSE p \in S : TRUE IN Add(f[p], SumPars(f, S \ {p}))
Clipped(o, gs) ==
  IF ~Has(o.globalclip) THEN gs
  ELSE LET sq == TLCEval([p \in DOMAIN gs |-> Sum(Squares(gs[p]))])
           norm == TLCEval(Sqrt(SumPars(sq, DOMAIN gs)))
           f == TLCEval(IF norm = Zero THEN One ELSE FMin(One, Div(Get(o.globalclip), norm)))
       IN [p \in DOMAIN gs |-> TLCEval([i \in DOMAIN gs[p] |-> Mul(gs[p][i], f)])]
FreshState(o, par) ==
  LET zero == [i \in 1..Size(par.shape) |-> Zero] f == Factored(Rule(o, par))
  IN [vr |-> IF f THEN zero ELSE <<>>, vc |-> IF f THEN zero ELSE <<>>, v |-> IF f THEN <<>> ELSE zero,
      m |-> IF Has(o.beta) THEN zero ELSE <<>>]
(* the parameter x and state q after a step with gradient g *)
Stepped(o, par, x, q, g, step, lr) ==
  LET rule == TLCEval(Rule(o, par))
      all == 1..Size(par.shape)
      batch == DimsOf(rule, {"batch"})
      w == TLCEval(Mixing(o, step))
      g2 == TLCEval([i \in all |-> Add(Mul(g[i], g[i]), o.eps1)])
      fac == TLCEval(Factored(rule))
      nr == Means(par.shape, DimsOf(rule, {"row", "batch", "none"}), g2)
      nc == Means(par.shape, DimsOf(rule, {"col", "batch", "none"}), g2)
      vr == TLCEval(IF fac THEN [i \in all |-> Mix(q.vr[i], nr[i], w)] ELSE <<>>)
      vc == TLCEval(IF fac THEN [i \in all |-> Mix(q.vc[i], nc[i], w)] ELSE <<>>)
      v == TLCEval(IF fac THEN <<>> ELSE [i \in all |-> Mix(q.v[i], g2[i], w)])
      base == Means(par.shape, DimsOf(rule, {"batch", "none"}), vr)
      y == TLCEval([i \in all |-> Div(g[i], Sqrt(IF fac THEN Div(Mul(vr[i], vc[i]), base[i]) ELSE v[i]))])
      rms == Means(par.shape, batch, Squares(y))
      u == TLCEval(IF ~Has(o.clip) THEN y
           ELSE [i \in all |-> Div(y[i], FMax(One, Div(Sqrt(rms[i]), Get(o.clip))))])
      size == Means(par.shape, batch, Squares(x))
      scale == TLCEval([i \in all |-> IF ~Scaled(o, par) THEN One
                              ELSE LET s == FMax(Sqrt(size[i]), o.eps2)
                                   IN IF Has(o.maxscale) THEN FMin(s, Get(o.maxscale)) ELSE s])
      d == TLCEval([i \in all |-> Mul(Mul(lr, scale[i]), u[i])])
      m == TLCEval(IF Has(o.beta) THEN [i \in all |-> Add(Mul(Get(o.beta), q.m[i]), Mul(Sub(One, Get(o.beta)), d[i]))] ELSE <<>>)
      wd == TLCEval(WeightDecay(o, lr))
      kept == TLCEval([i \in all |-> IF Has(wd) THEN Mul(Sub(One, Get(wd)), x[i]) ELSE x[i]])
      nx == TLCEval([i \in all |-> Sub(kept[i], IF Has(o.beta) THEN m[i] ELSE d[i])])
      skip(new, old) == TLCEval([i \in DOMAIN new |-> IF o.skipnan /\ IsNaN(new[i]) THEN old[i] ELSE new[i]])
  IN [x |-> skip(nx, x), q |-> [vr |-> skip(vr, q.vr), vc |-> skip(vc, q.vc), v |-> skip(v, q.v), m |-> skip(m, q.m)]]

(* ---- the optimizer over named parameters *)
VARIABLES opt, pars, step, val, st, bad
vars == <<opt, pars, step, val, st, bad>>
Refused(o, ps) == (o.by = "off" /\ o.map # <<>>) \/ \E p \in DOMAIN ps : Rule(o, ps[p]) = RuleError
Start(o, ps, x) == /\ opt = o /\ pars = ps /\ step = 0 /\ val = x
                   /\ bad = Refused(o, ps)
                   /\ st = IF Refused(o, ps) THEN <<>> ELSE [p \in DOMAIN ps |-> FreshState(o, ps[p])]
Update(gs, lr) ==
  /\ ~bad /\ step' = step + 1
  /\ \E cg \in {Clipped(opt, gs)} :
     \E new \in {[p \in DOMAIN pars |-> Stepped(opt, pars[p], val[p], st[p], cg[p], step, lr)]} :
        /\ val' = [p \in DOMAIN pars |-> new[p].x]
        /\ st' = [p \in DOMAIN pars |-> new[p].q]
  /\ UNCHANGED <<opt, pars, bad>>
(* a state restored, with the step count of where it was saved *)
Moved(n) == /\ ~bad /\ step' = n /\ UNCHANGED <<opt, pars, val, st, bad>>
=============================================================================
