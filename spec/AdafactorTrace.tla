---------------------------- MODULE AdafactorTrace ---------------------------
(* Runs of the real optimizer: H.opt, H.pars and H.start, then steps with their  *)
(* gradients and the parameters and state observed after them.                   *)
EXTENDS Adafactor, Json, TLC
VARIABLES t, l
tvars == <<vars, t, l>>
Traces == ndJsonDeserialize("traces.ndjson")
H == Traces[t]
E == H.ev[l]
TInit == /\ t \in 1..Len(Traces) /\ l = 1
         /\ Start(Traces[t].opt, Traces[t].pars, Traces[t].start)
(* the index of element i in an array without the dimensions drop *)
RECURSIVE Index(_, _, _, _)
Index(shape, drop, i, d) ==
  IF d = 0 THEN 0
  ELSE IF d \in drop THEN Index(shape, drop, i, d - 1)
  ELSE Index(shape, drop, i, d - 1) * shape[d] + Coord(shape, i, d)
RECURSIVE Volume(_, _, _)
Volume(shape, drop, d) == IF d = 0 THEN 1 ELSE Volume(shape, drop, d - 1) * (IF d \in drop THEN 1 ELSE shape[d])
Spread(shape, drop, f) ==
  IF Len(f) # Volume(shape, drop, Len(shape)) THEN <<"size">>
  ELSE [i \in 1..Size(shape) |-> f[Index(shape, drop, i, Len(shape)) + 1]]
Seen(p) ==
  LET rule == Rule(opt, pars[p]) shape == pars[p].shape f == Factored(rule) s == E.st[p]
  IN [vr |-> IF f THEN Spread(shape, DimsOf(rule, {"col"}), s.vr) ELSE <<>>,
      vc |-> IF f THEN Spread(shape, DimsOf(rule, {"row"}), s.vc) ELSE <<>>,
      v |-> IF f THEN <<>> ELSE s.v, m |-> IF Has(opt.beta) THEN s.m ELSE <<>>]
Same(a, b, k) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], k, Norm(1, -70))
(* errors are relative to what was added up: old values may cancel out *)
Big(f, i) == IF i \notin DOMAIN f THEN Zero ELSE IF IsNaN(f[i]) THEN Zero ELSE FAbs(f[i])
SameX(a, b, k, p) == /\ Len(a) = Len(b)
                     /\ \A i \in DOMAIN a : Close(a[i], b[i], k, FMax(Norm(1, -2), Add(Big(val[p], i), Big(st[p].m, i))))
Sizes(q, w) == Len(q.vr) = Len(w.vr) /\ Len(q.vc) = Len(w.vc) /\ Len(q.v) = Len(w.v) /\ Len(q.m) = Len(w.m)
SameState(q, w, p) == /\ Same(q.vr, w.vr, 1000) /\ Same(q.vc, w.vc, 1000) /\ Same(q.v, w.v, 1000)
                      /\ SameX(q.m, w.m, H.km, p)
(* what was observed is what the next step starts from: no error adds up *)
TCreate == /\ E.op = "create" /\ E.refused = bad
           /\ IF bad THEN TRUE ELSE \A p \in DOMAIN pars : Seen(p) = st[p]
           /\ UNCHANGED vars
TStep == /\ E.op = "step" /\ Update(E.grads, E.lr)
         /\ E.step = step'
         /\ \A p \in DOMAIN pars : /\ E.kinds[p] = H.kinds[p]
                                   /\ Sizes(Seen(p), st'[p]) /\ SameState(Seen(p), st'[p], p)
                                   /\ SameX(E.x[p], val'[p], H.kx[p], p)
TMove == E.op = "move" /\ Moved(E.step)
(* the observed state in place of the computed one *)
Sync == E.op = "sync" /\ ~bad /\ val' = E.x /\ st' = [p \in DOMAIN pars |-> Seen(p)] /\ UNCHANGED <<opt, pars, step, bad>>
TDo == /\ l <= Len(H.ev) /\ l' = l + 1 /\ t' = t
       /\ (TCreate \/ TStep \/ TMove \/ Sync)
TSpec == TInit /\ [][TDo]_tvars
Track == TLCSet(t, IF TLCGet(t) = -1 \/ l - 1 > TLCGet(t) THEN l - 1 ELSE TLCGet(t))
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, -1)
Report == \A i \in 1..Len(Traces) : PrintT(<<"REACHED", i, TLCGet(i)>>)
=============================================================================
