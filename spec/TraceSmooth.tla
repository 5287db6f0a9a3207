---------------------------- MODULE TraceSmooth ----------------------------
(* One step of a real finite-volume solver from data linear in position: cells *)
(* after the step against Smooth.tla, up to the square of the variation per      *)
(* cell (what a method of second order leaves is of the third power).            *)
EXTENDS Smooth, SequencesExt, TraceLib
VARIABLE upto
(* value of a linear field at x *)
AtX(f, x) == Plus(f.v, Plus(Times(f.g[1], x[1]), Plus(Times(f.g[2], x[2]), Times(f.g[3], x[3]))))
Around(f, x) == Linear(AtX(f, x), f.g)
FlowAt(e, x) == [r |-> Around(e.r, x), p |-> Around(e.p, x), u |-> TLCEval([d \in 1 .. 3 |-> Around(e.u[d], x)]),
                 b |-> TLCEval([d \in 1 .. 3 |-> Around(e.b[d], x)]), g |-> TLCEval([d \in 1 .. 3 |-> Const(e.acc[d])])]
(* variables: 1 density, 2 energy, 3-5 momenta, 6-8 magnetic field; where they live in a cell *)
Place(e, c, v) == TLCEval([d \in 1 .. 3 |-> IF d > e.dim THEN O
                     ELSE Times(e.h[d], Plus(I(c[d]), IF v = 5 + d THEN O ELSE Half(I(1))))])
Wanted(e, m, v) == Later(CASE v = 1 -> m.r [] v = 2 -> MEnergy(m, e.g1) [] v \in 3 .. 5 -> MMomentum(m, v - 2) [] OTHER -> m.b[v - 5], e.dt)
CellVars(e) == {v \in 1 .. Len(e.cells[1].q) : v < 6 \/ v - 5 > e.dim}
Wrong(e, c) ==
  LET m == Motion(FlowAt(e, Place(e, c.at, 1)), e.gamma)
      off(v, w) == Minus(c.q[v], w)
      res == TLCEval([v \in 1 .. Len(c.q) |-> off(v, IF v \in CellVars(e) THEN Wanted(e, m, v) ELSE Wanted(e, Motion(FlowAt(e, Place(e, c.at, v)), e.gamma), v))])
  IN  [v \in {w \in DOMAIN res : w \in ToSet(e.judged) /\ ~Le(Mag(res[w]), e.tol)} |-> res[v]]
Show(x) == <<x[4], x[5], x[6], x[7], x[8]>>
Ok(e) ==
  IF e.nan THEN Reject(e.id, "not a number")
  ELSE LET w == TLCEval([k \in DOMAIN e.cells |-> Wrong(e, e.cells[k])])
           bad == {k \in DOMAIN w : DOMAIN w[k] # {}}
       IN  IF bad = {} THEN TRUE
           ELSE LET k == CHOOSE x \in bad : TRUE IN Reject(e.id, <<e.cells[k].at, [v \in DOMAIN w[k] |-> Show(Mag(w[k][v]))]>>)
TraceInit == upto = 0
TraceNext == upto < Len(Trace) /\ Ok(Trace[upto + 1]) = TRUE /\ upto' = upto + 1
TraceSpec == TraceInit /\ [][TraceNext]_upto
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
