------------------------------ MODULE Limiter ------------------------------
(* What the limiter and the positivity procedure of the spectral difference   *)
(* solvers may do to a cell. A cell holds n values per direction and variable  *)
(* (density, total energy, momenta) at the Gauss-Chebyshev points; it stands    *)
(* for the polynomial through them. Averages and slopes are those of that       *)
(* polynomial; fluxes are taken at the ends and the Gauss-Legendre points.      *)
EXTENDS Fun, Nodes, FiniteSets
Dims == 2 .. 3
Most == 6                                   \* values per direction
(* ------------------------------------------------------------- geometry *)
RECURSIVE Pow(_, _)
Pow(n, e) == IF e = 0 THEN 1 ELSE n * Pow(n, e - 1)
Dofs(dim, n) == 1 .. Pow(n, dim)
Place(f, n, d) == 1 + (((f - 1) \div Pow(n, d - 1)) % n)          \* position along direction d
RECURSIVE DotIn(_, _, _, _)
DotIn(a, b, i, s) == IF i > Len(b) THEN s ELSE DotIn(a, b, i + 1, IF b[i] = O THEN s ELSE Plus(s, Times(a[i], b[i])))
Dot(a, b) == DotIn(a, b, 1, O)
Vars(dim) == 1 .. dim + 2                    \* density, energy, momenta
(* of a cell U[variable][value]: its average, its average derivative along d (per cell width) *)
(* one direction after the other: the values along the first direction are summed up *)
Fold(x, w, n) == TLCEval([l \in 1 .. Len(x) \div n |-> Dot(w, SubSeq(x, (l - 1) * n + 1, l * n))])
RECURSIVE FoldAll(_, _, _, _, _)
FoldAll(x, n, dim, along, d) ==
  IF d > dim THEN x[1] ELSE FoldAll(Fold(x, IF d = along THEN Rise[n] ELSE Weight[n], n), n, dim, along, d + 1)
Average(U, dim, n) == TLCEval([v \in Vars(dim) |-> FoldAll(U[v], n, dim, 0, 1)])
Slope(U, dim, n, d) == TLCEval([v \in Vars(dim) |-> FoldAll(U[v], n, dim, d, 1)])
(* the values at all flux points: along every line of every direction *)
Line(f, n, d) == LET s == Pow(n, d - 1) IN [k \in 1 .. n |-> f + (k - 1) * s]
RECURSIVE LinesOf(_, _, _, _)
LinesOf(f, dim, n, d) == IF f > Pow(n, dim) THEN <<>>
                         ELSE (IF Place(f, n, d) = 1 THEN <<Line(f, n, d)>> ELSE <<>>) \o LinesOf(f + 1, dim, n, d)
RECURSIVE Lines(_, _, _)
Lines(dim, n, d) == IF d > dim THEN <<>> ELSE LinesOf(1, dim, n, d) \o Lines(dim, n, d + 1)
LinesTable == [dim \in Dims |-> [n \in 1 .. Most |-> Lines(dim, n, 1)]]
FluxValues(x, dim, n) ==                     \* x[value] of one variable: [line][flux point]
  LET ls == LinesTable[dim][n]
  IN  TLCEval([l \in 1 .. Len(ls) |-> TLCEval([j \in 1 .. n + 1 |-> Dot(ToFlux[n][j], TLCEval([k \in 1 .. n |-> x[ls[l][k]]]))])])
(* -------------------------------------------------------------- limiter *)
(* a mean flow A: velocities, sound speed; waves along direction d: two sound  *)
(* waves, the entropy wave, and shear                                          *)
RECURSIVE SumSq(_, _, _)
SumSq(x, i, last) == IF i > last THEN O ELSE Plus(Sq(x[i]), SumSq(x, i + 1, last))
MeanPressure(a, dim, g) == Times(Minus(g, I(1)), Minus(a[2], Half(Div(SumSq(a, 3, dim + 2), a[1]))))
Mean(a, dim, g) ==                           \* a: average state, g: ratio of specific heats
  LET rd == Recip(a[1])
      v == TLCEval([k \in 1 .. dim |-> Times(a[2 + k], rd)])
      k2 == Half(SumSq(v, 1, dim))
      g1 == Minus(g, I(1))
      p == Times(g1, Minus(a[2], Times(a[1], k2)))
      c2 == Times3(g, p, rd)
  IN  [v |-> v, k2 |-> k2, g1 |-> g1, p |-> p, c2 |-> c2, c |-> Root(c2), r |-> Recip(c2), h |-> Plus(k2, Div(c2, g1))]
Across(dim, d) == {k \in 1 .. dim : k # d}
Nth(dim, d, i) == CHOOSE k \in Across(dim, d) : Cardinality({m \in Across(dim, d) : m <= k}) = i
Waves(x, A, dim, d) ==
  LET p == Times(A.g1, Plus(Minus(Times(A.k2, x[1]), Dot(A.v, [k \in 1 .. dim |-> x[2 + k]])), x[2]))
      s == Times(A.c, Minus(Times(A.v[d], x[1]), x[2 + d]))
      h == Half(A.r)
  IN  TLCEval([w \in Vars(dim) |->
        CASE w = 1 -> Times(h, Plus(p, s))
          [] w = 2 -> Times(h, Minus(p, s))
          [] w = 3 -> Minus(x[1], Times(p, A.r))
          [] OTHER -> LET t == Nth(dim, d, w - 3) IN Minus(x[2 + t], Times(A.v[t], x[1]))])
RECURSIVE ShearWork(_, _, _, _, _)
ShearWork(y, A, dim, d, w) == IF w > dim + 2 THEN O ELSE Plus(Times(A.v[Nth(dim, d, w - 3)], y[w]), ShearWork(y, A, dim, d, w + 1))
FromWaves(y, A, dim, d) ==
  LET m == Plus(Plus(y[1], y[2]), y[3])
      s == Times(A.c, Minus(y[2], y[1]))
  IN  TLCEval([v \in Vars(dim) |->
        CASE v = 1 -> m
          [] v = 2 -> Plus(Plus(Times(A.h, Plus(y[1], y[2])), Times(A.v[d], s)), Plus(Times(A.k2, y[3]), ShearWork(y, A, dim, d, 4)))
          [] v = 2 + d -> Plus(Times(A.v[d], m), s)
          [] OTHER -> Plus(Times(A.v[v - 2], m), y[CHOOSE w \in 4 .. dim + 2 : Nth(dim, d, w - 3) = v - 2])])
Sign(a) == IF Neg(a) THEN -1 ELSE IF a = O THEN 0 ELSE 1
MinMod(a, l, r, M) ==
  IF Lt(Mag(a), M) THEN a
  ELSE IF Sign(a) # 0 /\ Sign(a) = Sign(l) /\ Sign(l) = Sign(r)
       THEN LET m == Min(Mag(a), Min(Mag(l), Mag(r))) IN IF Sign(a) > 0 THEN m ELSE Uminus(m)
       ELSE O
RECURSIVE Sum2(_, _, _)
Sum2(x, i, s) == IF i > Len(x) THEN s ELSE Sum2(x, i + 1, Plus(s, x[i]))
(* averages l[d], r[d] of the neighbours, slopes S[d] of the cell itself, M: slopes left alone *)
Limited(a, S, l, r, dim, g, M) ==
  LET A == Mean(a, dim, g)
      per == TLCEval([d \in 1 .. dim |->
               LET w == Waves(S[d], A, dim, d)
                   x == Waves(TLCEval([v \in Vars(dim) |-> Minus(a[v], l[d][v])]), A, dim, d)
                   y == Waves(TLCEval([v \in Vars(dim) |-> Minus(r[d][v], a[v])]), A, dim, d)
                   z == TLCEval([k \in Vars(dim) |-> MinMod(w[k], x[k], y[k], M)])
               IN  [change |-> Sum2(TLCEval([k \in Vars(dim) |-> Mag(Minus(z[k], w[k]))]), 1, O), slope |-> FromWaves(z, A, dim, d), w |-> z]])
  IN  [change |-> Over(Sum2([d \in 1 .. dim |-> per[d].change], 1, O), dim + 2),
       slope |-> [d \in 1 .. dim |-> per[d].slope], waves |-> [d \in 1 .. dim |-> per[d].w]]
RECURSIVE LinearAt(_, _, _, _, _, _)
LinearAt(S, v, f, n, dim, d) == IF d > dim THEN O
  ELSE Plus(Times(Minus(Node[n][Place(f, n, d)], Half(I(1))), S[d][v]), LinearAt(S, v, f, n, dim, d + 1))
Linear(a, S, dim, n) ==
  TLCEval([v \in Vars(dim) |-> TLCEval([f \in Dofs(dim, n) |-> Plus(a[v], LinearAt(S, v, f, n, dim, 1))])])
Threshold == Dec(1, 10)
(* ----------------------------------------------------------- positivity *)
RECURSIVE Least(_, _, _)
Least(x, i, m) == IF i > Len(x) THEN m ELSE Least(x, i + 1, Min(m, x[i]))
RECURSIVE LeastOf(_, _, _)
LeastOf(x, l, m) == IF l > Len(x) THEN m ELSE LeastOf(x, l + 1, Least(x[l], 1, m))
Lowest(x) == LeastOf(x, 1, x[1][1])
(* squeeze a variable towards its average *)
Squeeze(x, a, t) == TLCEval([f \in 1 .. Len(x) |-> Plus(a, Times(t, Minus(x[f], a)))])
Share(a, low, eps) == Div(Mag(Minus(a, eps)), Plus(Mag(Minus(a, low)), Dec(1, 13)))
Theta1(x, a, dim, n, eps) == LET t == Share(a, Lowest(FluxValues(x, dim, n)), eps) IN Min(t, I(1))
(* twice density times internal energy: positive exactly if density and pressure are *)
RECURSIVE MomSq(_, _, _, _, _)
MomSq(X, l, j, v, last) == IF v > last THEN O ELSE Plus(Sq(X[v][l][j]), MomSq(X, l, j, v + 1, last))
Excess(X, dim) == TLCEval([l \in 1 .. Len(X[1]) |-> TLCEval([j \in 1 .. Len(X[1][l]) |->
                     Minus(By(Times(X[1][l][j], X[2][l][j]), 2), MomSq(X, l, j, 3, dim + 2))])])
AllFlux(U, dim, n) == TLCEval([v \in Vars(dim) |-> FluxValues(U[v], dim, n)])
(* flux values of the cell squeezed by t, from those of the cell *)
SqueezeFlux(X, a, t, dim) == TLCEval([v \in Vars(dim) |-> TLCEval([l \in 1 .. Len(X[v]) |-> Squeeze(X[v][l], a[v], t)])])
(* the largest t that leaves every flux point with non-negative pressure, by bisection *)
RECURSIVE LargestIn(_, _, _, _, _, _)
LargestIn(X, a, dim, lo, hi, i) ==
  IF i = 0 THEN lo
  ELSE LET t == Half(Plus(lo, hi)) IN
       IF Neg(Lowest(Excess(SqueezeFlux(X, a, t, dim), dim))) THEN LargestIn(X, a, dim, lo, t, i - 1)
       ELSE LargestIn(X, a, dim, t, hi, i - 1)
Theta2(X, a, dim, i) == IF Neg(Lowest(Excess(X, dim))) THEN LargestIn(X, a, dim, O, I(1), i) ELSE I(1)
=============================================================================
