---------------------------- MODULE TraceLimiter ----------------------------
(* Cells before and after the real limiter ("limit") and the real positivity   *)
(* procedure ("positive"), one per event, judged against Limiter.tla            *)
EXTENDS Limiter, TraceLib
VARIABLE upto
RECURSIVE MostIn(_, _, _)
MostIn(x, i, m) == IF i > Len(x) THEN m ELSE MostIn(x, i + 1, Max(m, Mag(x[i])))
RECURSIVE MostOf(_, _, _, _)
MostOf(cells, v, i, m) == IF i > Len(cells) THEN m ELSE MostOf(cells, v, i + 1, MostIn(cells[i][v], 1, m))
(* magnitudes of density, energy, momentum in the cells involved *)
ScalesOf(cells, dim) ==
  LET d == MostOf(cells, 1, 1, Dec(1, 8))
      e == MostOf(cells, 2, 1, Dec(1, 8))
      m == Root(Times(d, e))
  IN  TLCEval([v \in Vars(dim) |-> CASE v = 1 -> d [] v = 2 -> e [] OTHER -> Max(m, MostOf(cells, v, 1, O))])
CloseV(x, y, sc, dim, tol) == \A v \in Vars(dim) : Close(x[v], y[v], sc[v], tol)
CloseU(x, y, sc, dim, tol) == \A v \in Vars(dim) : \A f \in DOMAIN x[v] : Close(x[v][f], y[v][f], sc[v], tol)
LimitOk(e) ==
  LET dim == e.dim   n == e.n
      sc == ScalesOf(<<e.u>> \o e.nb, dim)
      a == Average(e.u, dim, n)
      A == Mean(a, dim, e.g)
  IN  IF ~CloseV(Average(e.post, dim, n), a, sc, dim, 11) THEN Reject(e.id, "average changed")
      ELSE IF ~(Gt(a[1], Tenth(sc[1], 4)) /\ Gt(A.p, Tenth(sc[2], 4))) THEN TRUE
      ELSE LET nb == TLCEval([i \in 1 .. 2 * dim |-> Average(e.nb[i], dim, n)])
               S == TLCEval([d \in 1 .. dim |-> Slope(e.u, dim, n, d)])
               x == Limited(a, S, [d \in 1 .. dim |-> nb[2 * d - 1]], [d \in 1 .. dim |-> nb[2 * d]], dim, e.g, e.m)
           IN  IF Lt(x.change, Dec(1, 12)) THEN (IF e.same THEN TRUE ELSE Reject(e.id, "changed without need"))
               ELSE IF CloseU(e.post, Linear(a, x.slope, dim, n), sc, dim, 10) THEN TRUE
               ELSE IF Lt(x.change, Dec(1, 8)) /\ e.same THEN TRUE
               ELSE Reject(e.id, IF e.same THEN "not limited" ELSE "not the limited slopes")
(* the factor by which the cell was squeezed: at the value furthest from its average *)
RECURSIVE FurthestIn(_, _, _, _, _, _)
FurthestIn(u, a, sc, v, f, b) ==
  IF v > Len(u) THEN b
  ELSE IF f > Len(u[v]) THEN FurthestIn(u, a, sc, v + 1, 1, b)
  ELSE LET x == Div(Mag(Minus(u[v][f], a[v])), sc[v]) IN
       FurthestIn(u, a, sc, v, f + 1, IF Gt(x, b[1]) THEN <<x, v, f>> ELSE b)
PositiveOk(e) ==
  LET dim == e.dim   n == e.n
      sc == ScalesOf(<<e.u, e.post>>, dim)
      a == Average(e.u, dim, n)
      A == Mean(a, dim, e.g)
  IN  IF ~(Gt(a[1], By(e.smallr, 2)) /\ Gt(A.p, Tenth(sc[2], 6))) THEN TRUE       \* not an admissible average
      ELSE IF ~CloseV(Average(e.post, dim, n), a, sc, dim, 11) THEN Reject(e.id, "average changed")
      ELSE LET low == Lowest(FluxValues(e.u[1], dim, n))
               t1 == Min(Share(a[1], low, e.smallr), I(1))
               u1 == IF t1 = I(1) THEN e.u ELSE TLCEval([e.u EXCEPT ![1] = Squeeze(@, a[1], t1)])
               X == AllFlux(u1, dim, n)
               tight == Times(sc[1], sc[2])
               ex == Lowest(Excess(X, dim))
               Y == AllFlux(e.post, dim, n)
               far == FurthestIn(u1, a, sc, 1, 1, <<O, 1, 1>>)
               w == far[2]   f == far[3]
               t2 == IF Lt(far[1], Dec(1, 6)) THEN I(1) ELSE Div(Minus(e.post[w][f], a[w]), Minus(u1[w][f], a[w]))
               more == Plus(t2, Dec(1, 5))
           IN  IF Lt(Lowest(Y[1]), Uminus(Tenth(sc[1], 12))) \/ (Neg(Lowest(Y[1])) /\ Gt(e.smallr, Tenth(sc[1], 11)))
               THEN Reject(e.id, "negative density at a flux point")
               ELSE IF Lt(Lowest(Excess(Y, dim)), Uminus(Tenth(tight, 11))) THEN Reject(e.id, "negative pressure at a flux point")
               ELSE IF Gt(low, By(e.smallr, 2)) /\ Gt(ex, Tenth(tight, 9)) THEN (IF e.same THEN TRUE ELSE Reject(e.id, "changed without need"))
               ELSE IF ~CloseU(e.post, TLCEval([v \in Vars(dim) |-> Squeeze(u1[v], a[v], t2)]), sc, dim, 9) THEN Reject(e.id, "not squeezed towards the average")
               ELSE IF Lt(t2, Dec(-1, 9)) \/ Gt(t2, Plus(I(1), Dec(1, 9))) THEN Reject(e.id, "squeezed the wrong way")
               ELSE IF Lt(more, I(1)) /\ Gt(Lowest(Excess(SqueezeFlux(X, a, more, dim), dim)), Tenth(tight, 9))
                    THEN Reject(e.id, "squeezed more than needed")
               ELSE TRUE
Ok(e) == IF e.nan THEN Reject(e.id, "not a number") ELSE IF e.ev = "limit" THEN LimitOk(e) ELSE PositiveOk(e)
TraceInit == upto = 0
TraceNext == upto < Len(Trace) /\ Ok(Trace[upto + 1]) = TRUE /\ upto' = upto + 1
TraceSpec == TraceInit /\ [][TraceNext]_upto
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
