------------------------------- MODULE Fixed -------------------------------
(* Real numbers in fixed point: N digits in base 10^4, most significant      *)
(* first, F of them behind the point (24 decimal places). The leading digit   *)
(* carries the sign, all others lie in 0 .. 9999. Products, quotients and     *)
(* roots are rounded to about 10^-23, far below the rounding of the double     *)
(* precision numbers they are compared with. TLC evaluates Add, Sub, Mul, By,  *)
(* Over, RecipPos, Iroot and Less by tools/java/Fixed.java, which gives the      *)
(* same digits (MCFixed.tla).                                                  *)
EXTENDS Integers, Sequences, TLC
B == 10000
N == 10
F == 6
H == N - F                       \* digits before the point: values below 10^16
RECURSIVE CarryAt(_, _)
CarryAt(a, i) ==
  IF i = 1 THEN a
  ELSE LET q == a[i] \div B
       IN  IF q = 0 THEN CarryAt(a, i - 1)
           ELSE CarryAt([a EXCEPT ![i] = @ - q * B, ![i - 1] = @ + q], i - 1)
Carry(a) == CarryAt(a, Len(a))
Neg(a) == a[1] < 0
Add(a, b) == Carry(<<a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4], a[5]+b[5], a[6]+b[6], a[7]+b[7], a[8]+b[8], a[9]+b[9], a[10]+b[10]>>)
Sub(a, b) == Carry(<<a[1]-b[1], a[2]-b[2], a[3]-b[3], a[4]-b[4], a[5]-b[5], a[6]-b[6], a[7]-b[7], a[8]-b[8], a[9]-b[9], a[10]-b[10]>>)
Plus(a, b)  == Add(a, b)
Minus(a, b) == Sub(a, b)
O == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
I(n) == Carry(<<0, 0, 0, n, 0, 0, 0, 0, 0, 0>>)          \* an integer
Uminus(a) == Minus(O, a)
Mag(a) == IF Neg(a) THEN Uminus(a) ELSE a
Less(a, b) == Neg(Minus(a, b))
Lt(a, b) == Less(a, b)
Gt(a, b) == Lt(b, a)
Le(a, b) == ~Lt(b, a)
Pos(a) == a[1] >= 0 /\ \E i \in 1 .. N : a[i] # 0
Max(a, b) == IF Lt(a, b) THEN b ELSE a
Min(a, b) == IF Lt(b, a) THEN b ELSE a
(* column k of the product: digits with i + j = H + k *)
RECURSIVE Col(_, _, _, _, _, _)
Col(a, b, s, i, last, acc) ==
  IF i > last THEN acc ELSE Col(a, b, s, i + 1, last, acc + a[i] * b[s - i])
Column(a, b, k) ==
  LET s == H + k IN Col(a, b, s, IF s - N > 1 THEN s - N ELSE 1, IF s - 1 < N THEN s - 1 ELSE N, 0)
TimesPos(a, b) ==
  LET g == Column(a, b, N + 1) \div B
      c == <<Column(a,b,1), Column(a,b,2), Column(a,b,3), Column(a,b,4), Column(a,b,5), Column(a,b,6),
             Column(a,b,7), Column(a,b,8), Column(a,b,9), Column(a,b,10) + g>>
  IN  Carry(c)
Mul(a, b) ==
  IF Neg(a) THEN IF Neg(b) THEN TimesPos(Uminus(a), Uminus(b)) ELSE Uminus(TimesPos(Uminus(a), b))
  ELSE IF Neg(b) THEN Uminus(TimesPos(a, Uminus(b))) ELSE TimesPos(a, b)
Times(a, b) == Mul(a, b)
Sq(a) == Times(a, a)
Times3(a, b, c) == Times(Times(a, b), c)
(* an integer multiple and an integer fraction of a number *)
By(a, k) == Carry(<<a[1]*k, a[2]*k, a[3]*k, a[4]*k, a[5]*k, a[6]*k, a[7]*k, a[8]*k, a[9]*k, a[10]*k>>)   \* |k| <= 10^5
RECURSIVE OverAt(_, _, _, _)
OverAt(a, k, i, r) ==
  IF i > N THEN a
  ELSE LET x == r * B + a[i] IN OverAt([a EXCEPT ![i] = x \div k], k, i + 1, x % k)
Over(a, k) == OverAt(a, k, 1, 0)                         \* 1 <= k <= 10^5
Half(a) == Over(a, 2)
(* index of the leading digit of a positive number *)
RECURSIVE LeadAt(_, _)
LeadAt(a, i) == IF a[i] # 0 \/ i = N THEN i ELSE LeadAt(a, i + 1)
(* 10^4-power 10^(4e) times n, as a number *)
Unit(n, e) == Carry(TLCEval([i \in 1 .. N |-> IF i = H - e THEN n ELSE 0]))
At(a, i) == IF i <= N THEN a[i] ELSE 0
(* reciprocal of a positive number: Newton's iteration, starting from the     *)
(* quotient of the two leading digits:  y ~ m B^e, 1/y ~ (2*10^9 / m) 500 B^-(e+3) *)
RECURSIVE RecipFrom(_, _, _)
RecipFrom(y, r, n) == IF n = 0 THEN r ELSE RecipFrom(y, Times(r, Minus(I(2), Times(y, r))), n - 1)
RecipPos(y) ==
  LET l == LeadAt(y, 1)
      m == y[l] * B + At(y, l + 1)
  IN  RecipFrom(y, Unit((2000000000 \div m) * 500, l + 1 - H - 3), 5)
Recip(y) == IF Neg(y) THEN Uminus(RecipPos(Uminus(y))) ELSE RecipPos(y)
Div(a, b) == Times(a, Recip(b))
(* square root of a non-negative number *)
RECURSIVE IsqrtIn(_, _, _)
IsqrtIn(m, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET c == (lo + hi) \div 2 IN IF c * c <= m THEN IsqrtIn(m, c, hi) ELSE IsqrtIn(m, lo, c)
RECURSIVE IrootFrom(_, _, _)
IrootFrom(y, r, n) == IF n = 0 THEN r
                      ELSE IrootFrom(y, Half(Times(r, Minus(I(3), Times(y, Sq(r))))), n - 1)
(* y ~ m B^e: one over the root of y by Newton's iteration from the integer root of m *)
Iroot(y) ==
  LET l == LeadAt(y, 1)
      m == y[l] * B + At(y, l + 1)
      e == H - l - 1
      s == IsqrtIn(m, 0, 10001)
      k == 100000000 \div s
  IN  IrootFrom(y, IF e % 2 = 0 THEN Unit(k, 0 - (e \div 2) - 2) ELSE Unit(100 * k, 0 - ((e - 1) \div 2) - 3), 4)
Root(y) == IF ~Pos(y) THEN O ELSE Times(y, Iroot(y))
(* |a - b| <= 10^-d * scale *)
RECURSIVE Tenth(_, _)
Tenth(a, d) == IF d % 4 = 0 THEN TLCEval([i \in 1 .. N |-> IF i - d \div 4 >= 1 THEN a[i - d \div 4] ELSE 0])
               ELSE Over(Tenth(a, d - (d % 4)), CASE d % 4 = 1 -> 10 [] d % 4 = 2 -> 100 [] OTHER -> 1000)
Close(a, b, scale, d) == Le(Mag(Minus(a, b)), Tenth(scale, d))
=============================================================================
