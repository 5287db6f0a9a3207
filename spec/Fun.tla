-------------------------------- MODULE Fun --------------------------------
(* Elementary functions of real numbers in the fixed point of Fixed.tla        *)
(* (24 decimal places, results good to about 10^-19 relative or absolute).     *)
EXTENDS Fixed
\* a decimal number  n * 10^-d  (|n| below 10^9, d <= 16)
Dec(n, d) == LET m == Tenth(I(IF n < 0 THEN 0 - n ELSE n), d) IN IF n < 0 THEN Uminus(m) ELSE m
Pi == <<0, 0, 0, 3, 1415, 9265, 3589, 7932, 3846, 2643>>
TwoPi == By(Pi, 2)
Ln2 == <<0, 0, 0, 0, 6931, 4718, 559, 9453, 941, 7232>>
Zero(a) == a = O
Small(a) == \A i \in 1 .. N - 1 : a[i] = 0
(* e^x for x <= 25: Taylor's series of x / 2^8, squared eight times *)
RECURSIVE ExpSum(_, _, _, _)
ExpSum(x, t, n, s) == IF n > 16 THEN s ELSE LET u == Over(Times(t, x), n) IN ExpSum(x, u, n + 1, Plus(s, u))
RECURSIVE Square(_, _)
Square(a, n) == IF n = 0 THEN a ELSE Square(Sq(a), n - 1)
ExpPos(x) == Square(ExpSum(Over(x, 256), I(1), 1, I(1)), 8)
Exp(x) == IF Neg(x) THEN IF Lt(x, I(-55)) THEN O ELSE IF Lt(x, I(-20)) THEN Sq(Recip(ExpPos(Half(Uminus(x))))) ELSE Recip(ExpPos(Uminus(x)))
          ELSE ExpPos(x)
(* natural logarithm of a positive number: halved or doubled into 2/3 .. 4/3, then 2 artanh *)
RECURSIVE LnSum(_, _, _, _)
LnSum(z2, t, n, s) == IF n > 35 THEN s ELSE LET u == Times(t, z2) IN LnSum(z2, u, n + 2, Plus(s, Over(u, n)))
LnNear(x) == LET z == Div(Minus(x, I(1)), Plus(x, I(1))) IN By(LnSum(Sq(z), z, 3, z), 2)
RECURSIVE LnIn(_, _)
LnIn(x, k) == IF Gt(x, Dec(4, 0)) THEN LnIn(Over(x, 4), k + 2)
              ELSE IF Gt(x, Dec(135, 2)) THEN LnIn(Half(x), k + 1)
              ELSE IF Lt(x, Dec(17, 2)) THEN LnIn(By(x, 4), k - 2)
              ELSE IF Lt(x, Dec(67, 2)) THEN LnIn(By(x, 2), k - 1)
              ELSE Plus(LnNear(x), By(Ln2, k))
Ln(x) == LnIn(x, 0)
Power(a, b) == Exp(Times(b, Ln(a)))
(* sine and cosine: reduced into -pi .. pi *)
RECURSIVE TrigSum(_, _, _, _)
TrigSum(x2, t, n, s) == IF n > 34 THEN s ELSE LET u == Uminus(Over(Times(t, x2), n * (n + 1))) IN TrigSum(x2, u, n + 2, Plus(s, u))
RECURSIVE Turn(_)
Turn(x) == IF Gt(x, By(TwoPi, 16)) THEN Turn(Minus(x, By(TwoPi, 16))) ELSE IF Gt(x, Pi) THEN Turn(Minus(x, TwoPi)) ELSE x
SinPos(x) == LET y == Turn(x) IN TrigSum(Sq(y), y, 2, y)
Sin(x) == IF Neg(x) THEN Uminus(SinPos(Uminus(x))) ELSE SinPos(x)
Cos(x) == LET y == Turn(Mag(x)) IN TrigSum(Sq(y), I(1), 1, I(1))
(* 1 / (1 + e^x), without overflow *)
Logistic(x) == IF Neg(x) THEN Recip(Plus(I(1), Exp(x))) ELSE LET e == Exp(Uminus(x)) IN Div(e, Plus(I(1), e))
=============================================================================
