-------------------------------- MODULE Float --------------------------------
(* Floating point in TLC's integers: <<m, e>> is m * 2^e with 2^14 <= |m| < 2^15, *)
(* <<0, 0>> is zero and <<1, 0>> is not a number.  Results are rounded, with a    *)
(* relative error of about 2^-15 each.                                            *)
EXTENDS Integers, Sequences
Zero == <<0, 0>>
NaN == <<1, 0>>
IsNaN(a) == a = NaN
Pow2 == [i \in 0..30 |-> 2^i]
MAbs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Bits(_, _)
Bits(n, k) == IF n < Pow2[k] THEN k ELSE Bits(n, k + 1)   \* n < 2^Bits
Width(n) == IF n < Pow2[15] THEN IF n < Pow2[8] THEN Bits(n, 0) ELSE Bits(n, 8)
            ELSE IF n < Pow2[22] THEN Bits(n, 15) ELSE IF n < Pow2[30] THEN Bits(n, 22) ELSE 31
RECURSIVE Norm(_, _)
Norm(m, e) ==
  IF m = 0 THEN Zero
  ELSE LET n == MAbs(m) w == Width(n)
       IN IF w <= 15 THEN <<m * Pow2[15 - w], e - (15 - w)>>
          ELSE LET k == w - 15
                   q == (n - Pow2[k - 1]) \div Pow2[k] + 1      \* rounded to the nearest
                   s == IF m < 0 THEN -q ELSE q
               IN Norm(s, e + k)
Num(n) == Norm(n, 0)
One == Num(1)
Neg(a) == IF IsNaN(a) THEN a ELSE <<-a[1], a[2]>>
FAbs(a) == IF IsNaN(a) THEN a ELSE <<MAbs(a[1]), a[2]>>
Add(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF a = Zero THEN b ELSE IF b = Zero THEN a
  ELSE LET x == IF a[2] >= b[2] THEN a ELSE b
           y == IF a[2] >= b[2] THEN b ELSE a
           d == x[2] - y[2]
       IN IF d <= 14 THEN Norm(x[1] * Pow2[d] + y[1], y[2]) ELSE x
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN
             ELSE IF a = Zero \/ b = Zero THEN Zero ELSE Norm(a[1] * b[1], a[2] + b[2])
Div(a, b) == IF IsNaN(a) \/ IsNaN(b) \/ b = Zero THEN NaN
             ELSE IF a = Zero THEN Zero
             ELSE LET q == (MAbs(a[1]) * Pow2[15]) \div MAbs(b[1])
                  IN Norm(IF (a[1] < 0) # (b[1] < 0) THEN -q ELSE q, a[2] - b[2] - 15)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo      \* lo^2 <= n < hi^2
                   ELSE LET k == (lo + hi) \div 2 IN IF k * k <= n THEN Root(n, k, hi) ELSE Root(n, lo, k)
Sqrt(a) == IF IsNaN(a) \/ a[1] < 0 THEN NaN ELSE IF a = Zero THEN Zero
           ELSE IF a[2] % 2 = 0 THEN Norm(Root(a[1] * Pow2[14], 1, 32768), (a[2] - 14) \div 2)
           ELSE Norm(Root(a[1] * Pow2[15], 1, 32768), (a[2] - 15) \div 2)
Leq(a, b) == Sub(a, b)[1] <= 0
FMax(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF Leq(a, b) THEN b ELSE a
FMin(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF Leq(a, b) THEN a ELSE b
RECURSIVE FSum(_, _)
FSum(s, n) == IF n = 0 THEN Zero ELSE Add(FSum(s, n - 1), s[n])
Sum(s) == FSum(s, Len(s))
Mean(s) == Div(Sum(s), Num(Len(s)))
(* a and b differ by at most 1/k of the larger, or of floor *)
Close(a, b, k, floor) ==
  IF IsNaN(a) \/ IsNaN(b) THEN a = b
  ELSE Leq(Mul(FAbs(Sub(a, b)), Num(k)), FMax(floor, FMax(FAbs(a), FAbs(b))))
=============================================================================
