------------------------------ MODULE MCFixed ------------------------------
(* The accelerated operators give the digits of their definitions: FixedPure  *)
(* is Fixed.tla itself under another name, evaluated without acceleration.     *)
EXTENDS Fixed
CONSTANT Count
P == INSTANCE FixedPure
VARIABLE st
(* numbers of all magnitudes and signs, from a linear congruence *)
Step(x) == (x * 197 + 4591) % 9973
RECURSIVE Walk(_, _)
Walk(x, n) == IF n = 0 THEN x ELSE Walk(Step(x), n - 1)
RECURSIVE Digits(_, _, _)
Digits(x, first, i) == IF i > N THEN <<>> ELSE <<IF i < first THEN 0 ELSE x>> \o Digits(Step(x), first, i + 1)
Num(seed, first, neg) == LET d == Digits(seed, first, 1) IN IF neg THEN P!Uminus(d) ELSE d
Init == st = <<>>
Next == st = <<>> /\ \E s \in 1 .. Count : \E f \in {3, 4, 5, 6, 8, 10}, g \in {3, 4, 5, 7, 9} : \E n \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>} :
          st' = <<TLCEval(Num(Walk(s, 3), f, n[1])), TLCEval(Num(Walk(s + 17, 5), g, n[2])), s>>
SameDigits == st # <<>> =>
  LET a == st[1]   b == st[2]   k == 1 + ((st[3] * 811) % 9999)   m == P!Mag(a) IN
  /\ Add(a, b) = P!Add(a, b) /\ Sub(a, b) = P!Sub(a, b) /\ Less(a, b) = P!Less(a, b) /\ Less(b, a) = P!Less(b, a) /\ ~Less(a, a)
  /\ Mul(a, b) = P!Mul(a, b) /\ Mul(b, a) = P!Mul(a, b)
  /\ By(a, k) = P!By(a, k) /\ By(a, 0 - k) = P!By(a, 0 - k) /\ Over(a, k) = P!Over(a, k)
  /\ m # O /\ LeadAt(m, 1) < 9 => RecipPos(m) = P!RecipPos(m) /\ Iroot(m) = P!Iroot(m)
  /\ Close(Minus(Plus(a, b), b), a, I(0), 0)
=============================================================================
