---- MODULE MCFun ----
(* identities of the elementary functions on a lattice of arguments *)
EXTENDS Fun
VARIABLE x
Args == {Dec(n, 2) : n \in {-1999, -700, -314, -157, -101, -3, 0, 1, 50, 99, 314, 628, 777, 1600}}
Init == x \in Args
Next == UNCHANGED x
Near(a, b) == Close(a, b, Plus(I(1), Plus(Mag(a), Mag(b))), 17)
Identities ==
  /\ Near(Plus(Sq(Sin(x)), Sq(Cos(x))), I(1))
  /\ Near(Sin(Plus(x, Pi)), Uminus(Sin(x)))
  /\ Near(Sin(By(x, 2)), By(Times(Sin(x), Cos(x)), 2))
  /\ Near(Cos(Minus(Half(Pi), x)), Sin(x))
  /\ Near(Times(Exp(x), Exp(Uminus(x))), I(1)) \/ Neg(Minus(I(-15), x)) = FALSE \/ Gt(x, I(15))
  /\ Gt(x, I(-15)) => Close(Ln(Exp(x)), x, I(1), 15)
  /\ Near(Plus(Logistic(x), Logistic(Uminus(x))), I(1))
  /\ Pos(x) => Near(Power(x, I(2)), Sq(x)) /\ Near(Power(x, Dec(5, 1)), Root(x))
Sanity == Near(Exp(I(1)), <<0, 0, 0, 2, 7182, 8182, 8459, 452, 3536, 287>>) /\ Near(Exp(Ln2), I(2)) /\ Near(Sin(Over(Pi, 6)), Half(I(1)))
====
