------------------------------ MODULE MCInflow ------------------------------
(* What Inflow.tla prescribes is sound: one value everywhere but at a front;    *)
(* every chain ends at an interior point or a state; at time 0 the top border   *)
(* continues the initial state; the fed part of it only grows, at the speed of   *)
(* the front; points inside the domain stand for themselves; the jet fills the   *)
(* nozzle and nothing else.                                                     *)
EXTENDS Inflow
Pow2(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 2 ELSE IF k = 2 THEN 4 ELSE 8
CONSTANT Every
VARIABLES e, c, l
Base == [problem |-> "", dim |-> 2, mhd |-> FALSE, sdm |-> 2, n |-> <<4, 3, 3>>, lo |-> <<Z, Z, Z>>, hi |-> <<One, One, One>>, g |-> Dec(14, 1),
         p |-> <<>>, edge |-> 12, tol |-> 10, t |-> Z]
Inst == {[Base EXCEPT !.problem = "wedge", !.sdm = k, !.t = t, !.p = p, !.lo[2] = y] : k \in {2, 3}, t \in {Z, Dec(2, 2), Dec(5, 2), Dec(2, 1)}, y \in {Z, Dec(-25, 2)},
                 p \in {<<>>, [front_x |-> Dec(35, 2)], [front_angle |-> One, shock_speed |-> I(3), rho1 |-> I(4)]}}
        \cup {[Base EXCEPT !.problem = "jet", !.dim = d, !.sdm = k, !.p = p] : d \in {2, 3}, k \in {2, 3},
                 p \in {[pos_jet |-> Dec(5, 1), width_jet |-> Dec(4, 1)], [width_jet |-> Dec(9, 1)], [rho_jet |-> I(2), u_jet |-> I(3), pos_jet |-> Dec(2, 1), width_jet |-> Dec(4, 1)]}}
Points(x) == {<<a, b, d>> : a \in 0 .. x.sdm - 1, b \in 0 .. x.sdm - 1, d \in IF x.dim = 3 THEN 0 .. x.sdm - 1 ELSE {0}}
Cells(x) == {<<a, b, d>> : a \in -1 .. x.n[1], b \in -1 .. x.n[2], d \in IF x.dim = 3 THEN -1 .. x.n[3] ELSE {0}}
Init == e \in Inst /\ c = <<-9, 0, 0>> /\ l = <<0, 0, 0>>
Next == /\ c[1] = -9 /\ UNCHANGED e
        /\ c' \in Cells(e) /\ l' \in {k \in Points(e) : (k[1] + k[2] + k[3] + c'[1] + 2 * c'[2] + 3 * c'[3]) % Every = 0}
V == Ghost(e, c, l)
X == Position(e, c, l)
Inside(x) == \A a \in 1 .. e.dim : x[a] \in 0 .. e.n[a] - 1
On == c[1] # -9
Resolved == On => V # {} /\ \A v \in V : v.kind = "state" \/ (Inside(v.c) /\ v.l \in Points(e))
Sides == {a \in 1 .. e.dim : c[a] \notin 0 .. e.n[a] - 1}
Single == On => Cardinality({v.kind : v \in V}) <= 1 + (IF e.problem = "wedge" THEN 1 ELSE 0) /\ Cardinality(V) <= Pow2(Cardinality(Sides))
Identity == On /\ Inside(c) => V = {Cell(c, l)}
(* only the wall of the wedge turns a velocity, and only once *)
Turned == On => \A v \in V : v.flip => e.problem = "wedge" /\ c[2] < 0 /\ ~Lt(X[1], Minus(Foot(e), Dec(1, 6)))
Continues == On /\ e.problem = "wedge" /\ e.t = Z /\ c[2] = e.n[2] => {v.s : v \in V} = Wedge(e, X)
Grows == On /\ e.problem = "wedge" /\ c[2] = e.n[2] /\ {v.s : v \in V} = {WedgeBehind(e)} =>
           {v.s : v \in Ghost([e EXCEPT !.t = Plus(e.t, Dec(1, 2))], c, l)} = {WedgeBehind(e)}
(* the distance of a point to the shock shrinks by the speed of it along its normal *)
Moves == On /\ e.problem = "wedge" /\ c[2] = e.n[2] =>
           LET later == [e EXCEPT !.t = Plus(e.t, Dec(1, 2))]
           IN  Close(Times(Minus(Front(later, X[2]), Front(e, X[2])), Sin(WedgeAngle(e))), Over(G(e, "shock_speed", I(10)), 100), One, 12)
Fed == On /\ e.problem = "jet" /\ c[1] < 0 /\ Cardinality(Sides) = 1 =>
         \A v \in V : v.kind = "state" /\ (v.s = JetState(e) => Le(Mag(Minus(X[2], G(e, "pos_jet", Z))), Half(G(e, "width_jet", Dec(1, 1)))))
=============================================================================
