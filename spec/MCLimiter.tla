----------------------------- MODULE MCLimiter -----------------------------
(* Limiting and positivity of one cell, for perturbations of single values of  *)
(* any variable, neighbours above, equal or below, all degrees up to MaxN:     *)
(* averages are kept, linear data is left alone, limiting twice changes        *)
(* nothing, slopes lie within the neighbours' differences, and the squeezed    *)
(* cell is admissible at every flux point.                                     *)
EXTENDS Limiter
CONSTANTS MaxN2, MaxN3, Deep
VARIABLE st
Same(a, b, d) == Close(a, b, Plus(I(1), Plus(Mag(a), Mag(b))), d)
SameV(x, y, d) == \A i \in DOMAIN x : Same(x[i], y[i], d)
G == Dec(14, 1)
Bases(dim) == {[v \in Vars(dim) |-> CASE v = 1 -> Dec(125, 2) [] v = 2 -> Dec(39, 1) [] v = 3 -> Dec(5, 1) [] v = 4 -> Dec(-75, 2) [] OTHER -> Dec(25, 2)],
               [v \in Vars(dim) |-> CASE v = 1 -> Dec(5, 1) [] v = 2 -> Dec(7, 1) [] v = 3 -> Dec(-6, 1) [] v = 4 -> O [] OTHER -> Dec(3, 1)]}
Amps == IF Deep THEN {-400, 250} ELSE {-300, 40}
Steps == {-1, 0, 1}
Neighbours == IF Deep THEN {<<-1, 1>>, <<0, 1>>, <<1, -1>>, <<-1, -1>>, <<1, 1>>, <<0, 0>>} ELSE {<<-1, 1>>, <<0, 1>>, <<1, -1>>, <<-1, -1>>}
Shift(v, s) == IF s = 0 THEN O ELSE By(CASE v = 1 -> Dec(7, 2) [] v = 2 -> Dec(11, 2) [] OTHER -> Dec(5, 2), s)
Start == [ph |-> "start"]
Init == st = Start
PickCell == st.ph = "start" /\ \E dim \in Dims : \E n \in 1 .. (IF dim = 2 THEN MaxN2 ELSE MaxN3) : \E b \in Bases(dim) :
  \E f \in (IF Deep THEN Dofs(dim, n) ELSE Dofs(dim, n) \cap {1, 2}) : \E v \in Vars(dim) : \E q \in Amps :
    st' = [ph |-> "cell", dim |-> dim, n |-> n, b |-> b, v |-> v,
           U |-> TLCEval([w \in Vars(dim) |-> TLCEval([h \in Dofs(dim, n) |-> IF h = f /\ w = v THEN Plus(b[w], Dec(q, 2)) ELSE b[w]])])]
(* neighbours: the averages of the own cell, shifted *)
Limit == st.ph = "cell" /\ \E d \in 1 .. st.dim : \E nbs \in Neighbours :
  LET a == Average(st.U, st.dim, st.n)
      S == TLCEval([k \in 1 .. st.dim |-> Slope(st.U, st.dim, st.n, k)])
      nb(s) == TLCEval([k \in 1 .. st.dim |-> TLCEval([w \in Vars(st.dim) |-> IF k = d THEN Plus(a[w], Shift(w, s)) ELSE Plus(a[w], Half(Shift(w, s)))])])
      l == nb(nbs[1])   r == nb(nbs[2])
      x == Limited(a, S, l, r, st.dim, G, O)
      U2 == Linear(a, x.slope, st.dim, st.n)
      S2 == TLCEval([k \in 1 .. st.dim |-> Slope(U2, st.dim, st.n, k)])
  IN  (Pos(a[1]) /\ Pos(Minus(MeanPressure(a, st.dim, G), Dec(1, 4))) /\ st.n > 1) = TRUE /\
      st' = [ph |-> "limited", dim |-> st.dim, n |-> st.n, a |-> a, S |-> S, l |-> l, r |-> r, x |-> x, U |-> st.U, U2 |-> U2, S2 |-> S2]
Squeezed == st.ph = "cell" /\
  LET a == Average(st.U, st.dim, st.n)
      eps == Dec(1, 7)
      t1 == Theta1(st.U[1], a[1], st.dim, st.n, eps)
      U1 == TLCEval([st.U EXCEPT ![1] = Squeeze(@, a[1], t1)])
      X == AllFlux(U1, st.dim, st.n)
      t2 == Theta2(X, a, st.dim, 14)
      U2 == TLCEval([v \in Vars(st.dim) |-> Squeeze(U1[v], a[v], t2)])
  IN  (Pos(Minus(a[1], eps)) /\ Pos(Minus(MeanPressure(a, st.dim, G), Dec(1, 4)))) = TRUE /\
      st' = [ph |-> "squeezed", dim |-> st.dim, n |-> st.n, a |-> a, t1 |-> t1, t2 |-> t2, U |-> st.U, U2 |-> U2]
Linearly == st.ph = "start" /\ \E dim \in Dims : \E n \in 2 .. (IF dim = 2 THEN MaxN2 ELSE MaxN3) : \E b \in Bases(dim) :
  \E v \in Vars(dim) : \E d \in 1 .. dim : \E s \in Steps :   \* linear data and neighbours on the same plane
  LET S == TLCEval([k \in 1 .. dim |-> TLCEval([w \in Vars(dim) |-> IF w = v THEN (IF k = d THEN Shift(w, s) ELSE Shift(w, 1)) ELSE O])])
      U == Linear(b, S, dim, n)
      l == TLCEval([k \in 1 .. dim |-> TLCEval([w \in Vars(dim) |-> Minus(b[w], S[k][w])])])
      r == TLCEval([k \in 1 .. dim |-> TLCEval([w \in Vars(dim) |-> Plus(b[w], S[k][w])])])
      x == Limited(b, TLCEval([k \in 1 .. dim |-> Slope(U, dim, n, k)]), l, r, dim, G, O)
  IN  st' = [ph |-> "linear", change |-> x.change, dim |-> dim, n |-> n, b |-> b, v |-> v, d |-> d, s |-> s]
Next == PickCell \/ Limit \/ Squeezed \/ Linearly
Spec == Init /\ [][Next]_st
(* ------------------------------------------------------------ properties *)
AveragesKept == st.ph \in {"limited", "squeezed"} => SameV(Average(st.U2, st.dim, st.n), st.a, 15)
SlopesAreTheLimited == st.ph = "limited" => \A k \in 1 .. st.dim : SameV(st.S2[k], st.x.slope[k], 14)
WithinNeighbours == st.ph = "limited" =>
  LET A == Mean(st.a, st.dim, G) IN
  \A k \in 1 .. st.dim :
    LET y == Waves(st.S2[k], A, st.dim, k)   w == Waves(st.S[k], A, st.dim, k)
        p == Waves(TLCEval([v \in Vars(st.dim) |-> Minus(st.a[v], st.l[k][v])]), A, st.dim, k)
        q == Waves(TLCEval([v \in Vars(st.dim) |-> Minus(st.r[k][v], st.a[v])]), A, st.dim, k)
    IN /\ SameV(FromWaves(w, A, st.dim, k), st.S[k], 14)
       /\ \A i \in Vars(st.dim) : \A z \in {p[i], q[i], w[i]} :
            IF Neg(z) THEN Le(y[i], Dec(1, 12)) /\ Le(Minus(z, Dec(1, 12)), y[i]) ELSE Le(Dec(-1, 12), y[i]) /\ Le(y[i], Plus(z, Dec(1, 12)))
Twice == st.ph = "limited" => Lt(Limited(st.a, st.S2, st.l, st.r, st.dim, G, O).change, Dec(1, 12))
LinearLeftAlone == st.ph = "linear" => Lt(st.change, Dec(1, 14))
Admissible == st.ph = "squeezed" =>
  LET X == AllFlux(st.U2, st.dim, st.n) IN
  /\ Le(Dec(9, 8), Lowest(X[1]))
  /\ Le(Dec(-1, 13), Lowest(Excess(X, st.dim)))
NotWithoutNeed == st.ph = "squeezed" =>
  LET X == AllFlux(st.U, st.dim, st.n) IN
  (Le(Dec(2, 7), Lowest(X[1])) => st.t1 = I(1)) /\ (st.t1 = I(1) /\ ~Neg(Lowest(Excess(X, st.dim))) => st.U2 = st.U)
(* ------------------------------------------- the tables, from their definitions *)
NodeIs(n, k) == Half(Minus(I(1), Cos(Over(By(Pi, 2 * k - 1), 2 * n))))
(* the inner points of a flux line: roots of the Legendre polynomial of degree n - 1, in 0 .. 1 *)
Sym(rs) == LET m == Len(rs) IN [i \in 1 .. 2 * m |-> Half(IF i <= m THEN Minus(I(1), rs[m + 1 - i]) ELSE Plus(I(1), rs[i - m]))]
With0(rs) == LET m == Len(rs) IN
  [i \in 1 .. 2 * m + 1 |-> Half(IF i <= m THEN Minus(I(1), rs[m + 1 - i]) ELSE IF i = m + 1 THEN I(1) ELSE Plus(I(1), rs[i - m - 1]))]
R7 == Over(I(2), 7)
Inner == <<<<>>, <<Half(I(1))>>, Sym(<<Root(Over(I(1), 3))>>), With0(<<Root(Over(I(3), 5))>>),
           Sym(<<Root(Minus(Over(I(3), 7), Times(R7, Root(Over(I(6), 5))))), Root(Plus(Over(I(3), 7), Times(R7, Root(Over(I(6), 5)))))>>),
           With0(<<Over(Root(Minus(I(5), By(Root(Over(I(10), 7)), 2))), 3), Over(Root(Plus(I(5), By(Root(Over(I(10), 7)), 2))), 3)>>)>>
FluxNodeIs(n) == <<O>> \o Inner[n] \o <<I(1)>>
(* the polynomial that is one at node k and zero at the others, as coefficients *)
TimesLinear(p, r) ==                         \* p(x) (x - r)
  TLCEval([i \in 1 .. Len(p) + 1 |-> Minus(IF i > 1 THEN p[i - 1] ELSE O, IF i <= Len(p) THEN Times(p[i], r) ELSE O)])
RECURSIVE LagrangeIn(_, _, _, _)
LagrangeIn(n, k, m, p) ==
  IF m > n THEN p
  ELSE LagrangeIn(n, k, m + 1,
         IF m = k THEN p
         ELSE LET q == TimesLinear(p, Node[n][m])   d == Recip(Minus(Node[n][k], Node[n][m]))
              IN TLCEval([i \in 1 .. Len(q) |-> Times(q[i], d)]))
LagrangeIs(n, k) == LagrangeIn(n, k, 1, <<I(1)>>)
RECURSIVE ValueIn(_, _, _)
ValueIn(p, x, i) == IF i > Len(p) THEN O ELSE Plus(p[i], Times(x, ValueIn(p, x, i + 1)))
Value(p, x) == ValueIn(p, x, 1)
RECURSIVE IntegralIn(_, _)
IntegralIn(p, i) == IF i > Len(p) THEN O ELSE Plus(Over(p[i], i), IntegralIn(p, i + 1))
Tables == \A n \in 1 .. Most :
  /\ \A k \in 1 .. n : LET p == TLCEval(LagrangeIs(n, k)) IN
       /\ Same(Node[n][k], NodeIs(n, k), 18)
       /\ Same(Weight[n][k], IntegralIn(p, 1), 16)
       /\ Same(Rise[n][k], Minus(Value(p, I(1)), p[1]), 16)
       /\ \A j \in 1 .. n + 1 : Same(ToFlux[n][j][k], Value(p, FluxNode[n][j]), 16)
  /\ SameV(FluxNode[n], FluxNodeIs(n), 18)
ASSUME Tables
(* weights: exact for polynomials up to degree n - 1; interpolation as well *)
RECURSIVE Power2(_, _)
Power2(x, e) == IF e = 0 THEN I(1) ELSE Times(x, Power2(x, e - 1))
RECURSIVE Quad(_, _, _, _)
Quad(w, n, e, k) == IF k > n THEN O ELSE Plus(Times(w[k], Power2(Node[n][k], e)), Quad(w, n, e, k + 1))
Geometry == \A n \in 1 .. Most : \A e \in 0 .. n - 1 :
  /\ Same(Quad(Weight[n], n, e, 1), Over(I(1), e + 1), 16)
  /\ Same(Quad(Rise[n], n, e, 1), IF e = 0 THEN O ELSE I(1), 16)
  /\ \A j \in 1 .. n + 1 : Same(Quad(ToFlux[n][j], n, e, 1), Power2(FluxNode[n][j], e), 16)
ASSUME Geometry
=============================================================================
