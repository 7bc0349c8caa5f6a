----------------------------- MODULE AdafactorMC -----------------------------
(* Two layers alone, stacked, and with their columns split into two dimensions: *)
(* all are updated alike, within the bounds the options promise.                *)
EXTENDS Adafactor
CONSTANTS MaxStep, Grads, Options
VARIABLES prev, g
mvars == <<vars, prev, g>>
Half == Norm(1, -1)
Opts == {[by |-> b[1], std |-> FALSE, names |-> [l |-> "batch", r |-> "row", c |-> b[2]], map |-> <<>>, mindim |-> 2, exponent |-> "1/2",
          offset |-> 0, beta |-> mo, clip |-> cl, decay |-> wd, decayexp |-> <<>>, eps1 |-> Norm(1, -60), eps2 |-> Norm(1, -3),
          globalclip |-> gc, maxscale |-> ms, skipnan |-> FALSE, scale |-> [by |-> "all", on |-> sc]] :
           b \in {<<"names", "col">>, <<"names", "none">>}, mo \in {<<>>, <<Half>>}, cl \in {<<>>, <<One>>},
           wd \in {<<>>, <<Norm(1, -2)>>}, gc \in {<<>>, <<One>>}, ms \in {<<>>, <<Half>>}, sc \in BOOLEAN}
Par(axes, shape) == [name |-> <<"p">>, axes |-> axes, shape |-> shape]
Pars == [one |-> Par(<<"r", "c">>, <<2, 2>>), two |-> Par(<<"r", "c">>, <<2, 2>>),
         stack |-> Par(<<"l", "r", "c">>, <<2, 2, 2>>), split |-> Par(<<"r", "c", "c">>, <<2, 1, 2>>),
         turned |-> Par(<<"c", "l", "r">>, <<2, 2, 2>>)]
Nums(s) == TLCEval([i \in DOMAIN s |-> Num(s[i])])
A(s) == Nums(s)
(* (col, layer, row) order of the stacked elements (layer, row, col) *)
Turn(s) == TLCEval([i \in 1..8 |-> LET c == (i - 1) \div 4 l == ((i - 1) \div 2) % 2 r == (i - 1) % 2 IN s[4 * l + 2 * r + c + 1]])
All(a, b) == TLCEval([one |-> a, two |-> b, stack |-> a \o b, split |-> a, turned |-> Turn(a \o b)])
Given(o) == {k \in {"beta", "clip", "decay", "globalclip", "maxscale"} : Has(o[k])}
MInit == /\ \E o \in {o \in Opts : Cardinality(Given(o)) <= Options} : Start(o, Pars, All(A(<<1, 2, -1, 3>>), A(<<4, 0, 1, -2>>)))
         /\ prev = val /\ g = <<>>
MNext == /\ step < MaxStep
         /\ \E a, b \in Grads : g' = All(A(a), A(b)) /\ Update(All(A(a), A(b)), Half)
         /\ prev' = val
MSpec == MInit /\ [][MNext]_mvars
Same(s, u) == \A i \in DOMAIN s : Close(s[i], u[i], 1000, One)
(* how the elements are laid out does not matter; heuristics factor matrices alone *)
Alike == LET whole == opt.names.c = "col" IN
         /\ whole => Same(val.stack, val.one \o val.two) /\ Same(val.split, val.one)
         /\ Same(val.turned, Turn(val.stack))
RmsOf(s) == Sqrt(Mean(Squares(s)))
Bounded ==
  (step > 0 /\ Has(opt.clip) /\ ~Has(opt.decay)) =>
    \A p \in {"one", "two", "split"} :
      LET d == [i \in DOMAIN val[p] |-> Sub(val[p][i], prev[p][i])]
          s == IF opt.scale.on THEN FMax(RmsOf(prev[p]), opt.eps2) ELSE One
      IN Leq(RmsOf(d), Mul(Num(1), Add(Mul(Half, Mul(s, IF Has(opt.beta) THEN Num(2) ELSE One)), Norm(1, -9))))
(* without momentum and decay an element without gradient stays *)
Still == (step > 0 /\ ~Has(opt.beta) /\ ~Has(opt.decay)) =>
           \A p \in DOMAIN pars : \A i \in DOMAIN g[p] : g[p][i] = Zero => val[p][i] = prev[p][i]
(* and otherwise moves against it *)
Against == (step > 0 /\ ~Has(opt.beta) /\ ~Has(opt.decay)) =>
           \A p \in DOMAIN pars : \A i \in DOMAIN g[p] :
             g[p][i] # Zero => (g[p][i][1] > 0) = (Sub(val[p][i], prev[p][i])[1] < 0)
=============================================================================
