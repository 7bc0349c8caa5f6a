------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Learning-rate schedules (C24) in exact arithmetic.  A rational is       *)
(* <<num, den>>, den > 0.  A configuration c has the factor names and      *)
(* base, decay, min (rationals), warmup, every, cycle, offset (steps).     *)
(* Square roots and cosines are only used where they are rational.         *)
(***************************************************************************)
EXTENDS Integers, Sequences
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Q(n, d) == LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
Mul(p, q) == Q(p[1] * q[1], p[2] * q[2])
Add(p, q) == Q(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
Leq(p, q) == p[1] * q[2] <= q[1] * p[2]
RMax(p, q) == IF Leq(p, q) THEN q ELSE p
RMin(p, q) == IF Leq(p, q) THEN p ELSE q
RECURSIVE Pow(_, _)
Pow(q, n) == IF n = 0 THEN <<1, 1>> ELSE Mul(q, Pow(q, n - 1))
One == <<1, 1>>
Zero == <<0, 1>>
Sqrt(n) == IF \E r \in 0..n : r * r = n THEN CHOOSE r \in 0..n : r * r = n ELSE -1
\* (1 + cos(pi * k / n)) / 2 where it is rational
Cos(k, n) == CASE k = 0 -> One [] 3 * k = n -> <<3, 4>> [] 2 * k = n -> <<1, 2>>
               [] 3 * k = 2 * n -> <<1, 4>>
Known == {"constant", "linear_warmup", "linear_decay", "rsqrt_decay", "rsqrt_normalized_decay",
          "decay_every", "cosine_decay"}
Factor(name, c, s) ==
  CASE name = "constant" -> c.base
    [] name = "linear_warmup" -> RMin(One, Q(s, c.warmup))
    [] name = "linear_decay" ->
         Mul(c.base, RMin(Q(s, c.warmup), Add(One, Mul(c.decay, <<c.warmup - s, 1>>))))
    [] name = "rsqrt_decay" -> <<1, Sqrt(Max(s, c.warmup))>>
    [] name = "rsqrt_normalized_decay" -> Q(Sqrt(c.warmup), Sqrt(Max(s, c.warmup)))
    [] name = "decay_every" -> Pow(c.decay, s \div c.every)
    [] name = "cosine_decay" -> Cos(Max(0, s - c.warmup) % c.cycle, c.cycle)
RECURSIVE Prod(_, _, _)
Prod(names, c, s) == IF names = <<>> THEN One ELSE Mul(Factor(Head(names), c, s), Prod(Tail(names), c, s))
Rel(c, step) == Max(0, step - c.offset)
Rate(c, step) == RMax(Prod(c.factors, c, Rel(c, step)), c.min)
\* The square of the rate of the factors whose square is always rational.
Factor2(name, c, s) ==
  CASE name = "constant" -> Mul(c.base, c.base)
    [] name = "rsqrt_decay" -> <<1, Max(s, c.warmup)>>
    [] name = "rsqrt_normalized_decay" -> Q(c.warmup, Max(s, c.warmup))
RECURSIVE Prod2(_, _, _)
Prod2(names, c, s) == IF names = <<>> THEN One ELSE Mul(Factor2(Head(names), c, s), Prod2(Tail(names), c, s))
Ok(c) ==
  IF \E i \in DOMAIN c.factors : c.factors[i] \notin Known THEN c.error
  ELSE /\ ~c.error
       /\ \A i \in DOMAIN c.points :
            LET p == c.points[i] IN
            IF c.squared THEN Mul(<<1, 1>>, p.v) = Prod2(c.factors, c, Rel(c, p.step))
            ELSE p.v = Rate(c, p.step)
=============================================================================
