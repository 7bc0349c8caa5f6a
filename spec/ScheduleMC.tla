----------------------------- MODULE ScheduleMC -----------------------------
(* The schedule along the steps of a run: what its documentation promises.   *)
EXTENDS Schedule
CONSTANTS Warmups, Offsets, Every, MaxStep
Half == <<1, 2>>
VARIABLES step, c
vars == <<step, c>>
Lists == {<<"constant", "linear_warmup">>, <<"linear_decay">>, <<"constant", "decay_every">>,
          <<"constant", "linear_warmup", "decay_every">>, <<"decay_every">>}
Init == /\ step = 0
        /\ \E f \in Lists, w \in Warmups, o \in Offsets, b \in {<<1, 1>>, <<3, 4>>}, m \in {Zero, <<1, 8>>} :
             c = [factors |-> f, base |-> b, decay |-> Half, min |-> m, warmup |-> w, every |-> Every,
                  cycle |-> 6, offset |-> o]
Next == step < MaxStep /\ step' = step + 1 /\ c' = c
Spec == Init /\ [][Next]_vars
Has(n) == \E i \in DOMAIN c.factors : c.factors[i] = n
Floor == Leq(c.min, Rate(c, step))
Peak == Leq(Rate(c, step), RMax(c.min, IF Has("constant") \/ Has("linear_decay") THEN c.base ELSE One))
BeforeOffset == step <= c.offset => Rate(c, step) = Rate(c, 0)
\* The rate grows during warm-up and never afterwards.
Rises == [][Has("linear_warmup") /\ ~Has("decay_every") /\ Rel(c, step') <= c.warmup
            => Leq(Rate(c, step), Rate(c, step'))]_vars
Falls == [][Rel(c, step) >= c.warmup => Leq(Rate(c, step'), Rate(c, step))]_vars
\* Decaying steps are exactly the multiples of the period.
Jumps == [][c.factors = <<"decay_every">> /\ c.min = Zero =>
             Rate(c, step') = (IF Rel(c, step') # Rel(c, step) /\ Rel(c, step') % c.every = 0
                               THEN Mul(c.decay, Rate(c, step)) ELSE Rate(c, step))]_vars
=============================================================================
