------------------------------- MODULE Limbs -------------------------------
(* Exact non-negative numbers wider than TLC's integers: digits in base      *)
(* 10^5, most significant first, one common length in every operation.       *)
EXTENDS Integers, Sequences
Base == 100000
(* carry propagation of a digit sequence whose digits may be any integers    *)
RECURSIVE NormAt(_, _)
NormAt(a, i) ==
  IF i = 1 THEN a
  ELSE LET q == a[i] \div Base                \* floor division: also borrows
       IN  NormAt([a EXCEPT ![i] = @ - q * Base, ![i - 1] = @ + q], i - 1)
Norm(a) == NormAt(a, Len(a))
Zero(n) == [i \in 1 .. n |-> 0]
Add(a, b) == Norm([i \in DOMAIN a |-> a[i] + b[i]])
(* the sign is carried by the leading digit *)
Sub(a, b) == Norm([i \in DOMAIN a |-> a[i] - b[i]])
Scale(a, k) == Norm([i \in DOMAIN a |-> a[i] * k])         \* 0 <= k <= 20000
Negative(a) == a[1] < 0
Less(a, b) == Negative(Sub(a, b))
Leq(a, b) == ~Less(b, a)
IsZero(a) == \A i \in DOMAIN a : a[i] = 0
Min(a, b) == IF Less(b, a) THEN b ELSE a
(* |a - b| <= tol, for a limb number tol *)
NearL(a, b, tol) == Leq(a, Add(b, tol)) /\ Leq(b, Add(a, tol))
Small(n, v) == [i \in 1 .. n |-> IF i = n THEN v % Base ELSE IF i = n - 1 THEN v \div Base ELSE 0]   \* v < 10^10, v an int
=============================================================================
