---------------------------- MODULE TraceInflow ----------------------------
(* Ghost points the real solvers filled, judged against Inflow.tla. Where       *)
(* e.tags holds, the interior held distinct integers before: points that copy   *)
(* another one are then known by their value (and skipped otherwise).           *)
EXTENDS Inflow, TraceLib
VARIABLE upto
Vars(e) == 2 + e.dim
Pow(b, k) == IF k = 2 THEN b * b ELSE b * b * b
Tag(e, c, l, v) ==
  LET cell == (c[3] * e.n[2] + c[2]) * e.n[1] + c[1]
      f == l[1] + e.sdm * l[2] + (IF e.dim = 3 THEN e.sdm * e.sdm * l[3] ELSE 0)
  IN  (cell * Vars(e) + v) * Pow(e.sdm, e.dim) + f + 1
Tol(e, a, b, s) == Close(a, b, s, e.tol)
StateFits(e, q, v) ==
  LET s == IF v.flip THEN [v.s EXCEPT !.v = Uminus(@)] ELSE v.s
      u == Densities(e, <<Z, Z, Z>>, s)
      m == Plus(Root(By(Times(u.d, u.e), 2)), Dec(1, 6))
  IN  /\ Tol(e, u.d, q[1], u.d) /\ Tol(e, u.e, q[2], u.e)
      /\ Tol(e, u.u, q[3], m) /\ Tol(e, u.v, q[4], m) /\ (e.dim = 3 => Tol(e, u.w, q[5], m))
CellFits(e, q, v) ==
  \A k \in 1 .. Vars(e) : LET t == I(Tag(e, v.c, v.l, k - 1)) IN Close(IF v.flip /\ k = 4 THEN Uminus(t) ELSE t, q[k], t, 12)
Fits(e, q, v) == IF v.kind = "state" THEN q # << >> /\ StateFits(e, q, v) ELSE ~e.tags \/ (q # << >> /\ CellFits(e, q, v))
PointFits(e, p) == \E v \in Ghost(e, p.c, p.l) : Fits(e, p.q, v)
Bad(e) == {i \in 1 .. Len(e.points) : ~PointFits(e, e.points[i])}
Ok(e) == LET b == Bad(e) IN IF b = {} THEN TRUE
         ELSE Reject(e.id, <<e.problem, "ghost points", Cardinality(b), "of", Len(e.points), "first", LET i == CHOOSE i \in b : \A j \in b : i <= j IN <<e.points[i].c, e.points[i].l>> >>)
TraceInit == upto = 0
TraceNext == upto < Len(Trace) /\ Ok(Trace[upto + 1]) /\ upto' = upto + 1
TraceSpec == TraceInit /\ [][TraceNext]_upto
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
