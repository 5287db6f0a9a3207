------------------------------- MODULE Inflow -------------------------------
(* The boundaries of the two problems that are fed from outside: the jet and   *)
(* the shock over a wedge (spectral difference schemes).                        *)
(* An instance e is one of Initial.tla, at time e.t. A ghost point is point l   *)
(* of cell c, counted over the whole domain, with c beyond it along some axes.  *)
(* Its value is either a prescribed state or that of another point, with the    *)
(* velocity across the wall reversed where flip is TRUE:                        *)
(*   jet    low x: the jet inside the nozzle, the bulk around it                *)
(*          all others: outflow                                                *)
(*   wedge  low x: the state behind the shock;  high x: outflow                *)
(*          low y: behind the shock ahead of the ramp, a wall along it          *)
(*          high y: the shock passes at its speed: behind it, ahead of it       *)
(* Corners: y and z first, then x in the row they point to.                     *)
EXTENDS Initial
JetState(e) == St(G(e, "rho_jet", I(5)), G(e, "p_jet", Dec(4127, 4)), G(e, "u_jet", I(800)), G(e, "v_jet", Z), IF e.dim = 3 THEN G(e, "w_jet", Z) ELSE Z)
(* the nozzle: a slit in the plane, round in space *)
Nozzle(e, x) ==
  LET at == G(e, "pos_jet", Z)
      r2 == Plus(Sq(Minus(x[2], at)), IF e.dim = 3 THEN Sq(Minus(x[3], at)) ELSE Z)
  IN  Below(e, r2, Sq(Half(G(e, "width_jet", Dec(1, 1)))), r2)
(* where the shock meets the height x[2] at time e.t; it moves along its normal *)
Foot(e) == G(e, "front_x", Dec(1, 1))
Front(e, y) ==
  LET an == WedgeAngle(e)
  IN  Plus(Foot(e), Plus(Div(Times(y, Cos(an)), Sin(an)), Div(Times(G(e, "shock_speed", I(10)), e.t), Sin(an))))
Passed(e, x) == Below(e, x[1], Front(e, x[2]), x[1])
State(s) == [kind |-> "state", s |-> s, flip |-> FALSE]
Cell(c, l) == [kind |-> "cell", c |-> c, l |-> l, flip |-> FALSE]
Flipped(v) == [v EXCEPT !.flip = ~@]
Last(e, a) == e.n[a] - 1
Opposite(e, l) == e.sdm - 1 - l
(* a cell may be beyond the domain along x only *)
AlongX(e, c, l) ==
  IF c[1] < 0
  THEN IF Actual(e) = "jet" THEN {State(IF in THEN JetState(e) ELSE JetBulk(e)) : in \in Nozzle(e, Position(e, c, l))} ELSE {State(WedgeBehind(e))}
  ELSE IF c[1] > Last(e, 1) THEN {Cell([c EXCEPT ![1] = Last(e, 1)], [l EXCEPT ![1] = k]) : k \in {l[1], Opposite(e, l[1])}}   \* in order or mirrored
  ELSE {Cell(c, l)}
Clamp(e, c, a) == [c EXCEPT ![a] = IF c[a] < 0 THEN 0 ELSE IF c[a] > Last(e, a) THEN Last(e, a) ELSE c[a]]
Orders(e, l, as) == {[a \in 1 .. 3 |-> IF a \in b THEN Opposite(e, l[a]) ELSE l[a]] : b \in SUBSET as}
JetGhost(e, c, l) ==
  LET out == {a \in 2 .. e.dim : c[a] # Clamp(e, c, a)[a]}
      d == Clamp(e, Clamp(e, c, 2), 3)
  IN  UNION {AlongX(e, d, k) : k \in Orders(e, l, out)}
WedgeGhost(e, c, l) ==
  LET x == Position(e, c, l)
  IN  IF c[2] < 0
      THEN UNION {IF feed THEN {State(WedgeBehind(e))}
                  ELSE {Flipped(v) : v \in AlongX(e, [c EXCEPT ![2] = -1 - c[2]], [l EXCEPT ![2] = Opposite(e, l[2])])} : feed \in Below(e, x[1], Foot(e), x[1])}
      ELSE IF c[2] > Last(e, 2) THEN {State(IF p THEN WedgeBehind(e) ELSE WedgeAhead(e)) : p \in Passed(e, x)}
      ELSE AlongX(e, c, l)
Ghost(e, c, l) == IF Actual(e) = "jet" THEN JetGhost(e, c, l) ELSE WedgeGhost(e, c, l)
=============================================================================
