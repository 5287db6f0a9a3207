---------------------------- MODULE TraceInitial ---------------------------
(* Cells of the state a real solver starts from, judged against Initial.tla    *)
EXTENDS Initial, TraceLib
VARIABLE upto
(* values of a cell: density, energy, momentum along x, y, (z), field along x, y, z *)
Mom3(e) == e.mhd \/ e.dim = 3
Energy(q) == q[2]
Tol(e, a, b, s) == Close(a, b, s, e.tol)
(* do the values fit the densities u, the state s being at x *)
Fits(e, q, u) ==
  LET m == Plus(Root(By(Times(u.d, u.e), 2)), Dec(1, 6))
  IN  /\ Tol(e, u.d, q[1], u.d) /\ Tol(e, u.e, q[2], u.e)
      /\ Tol(e, u.u, q[3], m) /\ Tol(e, u.v, q[4], m)
      /\ (Mom3(e) => Tol(e, u.w, q[5], m))
FieldFits(e, q, x, s, en) ==
  ~e.mhd \/ \A a \in 1 .. 3 : Tol(e, Field(e, a, x, s), q[5 + a], Plus(Root(en), Dec(1, 6)))
(* random perturbations of a shear flow *)
Perturbed(e, q, x, s) ==
  LET amp == KhAmplitude(e)
      d == s.d
      within(m, v) == Le(Mag(Minus(m, Times(d, v))), Times(Times(d, amp), Plus(One, Dec(1, 6))))
      m2 == Plus(R2(q[3], q[4]), IF Mom3(e) THEN Sq(q[5]) ELSE Z)
      b2 == IF e.mhd THEN Plus(R2(q[6], q[7]), Sq(q[8])) ELSE Z
      en == Plus(Plus(Div(s.p, Minus(e.g, One)), Half(Div(m2, d))), Half(b2))
  IN  /\ Tol(e, d, q[1], d) /\ Tol(e, en, q[2], en)
      /\ within(q[3], s.u) /\ within(q[4], Z)
      /\ (Mom3(e) => within(q[5], Z))
CellFits(e, q, x) ==
  IF KhRandom(e) THEN \E s \in KhBase(e, x) : Perturbed(e, q, x, s)
  ELSE IF Actual(e) = "wave" /\ e.dim = 2                     \* no wave is defined in the plane; still a state is needed
  THEN Pos(q[1]) /\ Gt(Times(q[1], Minus(q[2], Half(Plus(R2(q[6], q[7]), Sq(q[8]))))), Half(Plus(R2(q[3], q[4]), Sq(q[5]))))
  ELSE IF Actual(e) = "wave" THEN LET u == WaveDensities(e, x) IN Fits(e, q, u) /\ FieldFits(e, q, x, Rest(Z, Z), u.e)
  ELSE \E s \in States(e, x) : LET u == Densities(e, x, s) IN Fits(e, q, u) /\ FieldFits(e, q, x, s, u.e)
PullFits(e, c, x) ==
  c.g = << >> \/ LET f == Pull(e, x)
                     m == Plus(Plus(Mag(f[1]), Mag(f[2])), Plus(Mag(f[3]), Dec(1, 6)))
                 IN  \A a \in 1 .. e.dim : Tol(e, f[a], c.g[a], m)
Bad(e) == {i \in 1 .. Len(e.cells) : LET x == Position(e, e.cells[i].c, e.cells[i].l) IN ~(CellFits(e, e.cells[i].q, x) /\ PullFits(e, e.cells[i], x))}
Ok(e) == IF e.nan THEN Reject(e.id, <<"not a number">>)
         ELSE LET b == Bad(e) IN IF b = {} THEN TRUE
              ELSE Reject(e.id, <<e.problem, "cells", Cardinality(b), "of", Len(e.cells), "first", e.cells[CHOOSE i \in b : \A j \in b : i <= j].c>>)
TraceInit == upto = 0
TraceNext == upto < Len(Trace) /\ Ok(Trace[upto + 1]) /\ upto' = upto + 1
TraceSpec == TraceInit /\ [][TraceNext]_upto
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
