--------------------------- MODULE FiniteVolume ---------------------------
(* A conservative scheme on a small 2D grid.  Every face carries one flux,   *)
(* which is subtracted from the cell on its low side and added to the cell   *)
(* on its high side, one face at a time and in any order.  The flux of a     *)
(* face is ARBITRARY (chosen from Vals) except at the faces of the domain:   *)
(*   periodic faces carry the same flux on both ends,                        *)
(*   wall faces carry no mass and no energy,                                 *)
(* or, in consistent mode, it is a function of the two adjacent states with  *)
(* F(u,u) = G(u).  Whatever the interior fluxes are, the totals below are    *)
(* constant: it is this structure the recorded runs are checked for.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NX, NY, Vals, Kinds, Modes

Cells == (0 .. NX - 1) \X (0 .. NY - 1)
(* a face: <<axis, i, j>> between cell <<i-1,j>> and <<i,j>> (axis 1), ...    *)
Faces == ({1} \X (0 .. NX) \X (0 .. NY - 1)) \cup ({2} \X (0 .. NX - 1) \X (0 .. NY))

(* --- what must be conserved: used on recorded traces as well ----------- *)
(* variable groups: 1 density 2 energy 3 momentum along .ax 4 field along .ax *)
(* bc codes 1 wall 2 outflow 3 periodic 4 copy; bc = <<xmin, xmax, ymin ..>>  *)
Periodic(bc, a) == bc[2 * a - 1] = 3 /\ bc[2 * a] = 3
Closed(bc, a) == bc[2 * a - 1] \in {1, 3} /\ bc[2 * a] \in {1, 3}
MustConserve(v, dim, bc, gravity, viscous, bnzero) ==
  /\ \A a \in 1 .. dim : Closed(bc, a)
  /\ IF \A a \in 1 .. dim : Periodic(bc, a)
     THEN IF gravity \/ viscous THEN v.g = 1 ELSE TRUE
     ELSE /\ ~viscous
          /\ \/ v.g = 1 \/ (v.g = 2 /\ ~gravity)
             \/ v.g = 3 /\ ~gravity /\ bnzero /\ (v.ax <= dim => Periodic(bc, v.ax))

VARIABLES u, u0, flux, todo, kind, mode
fvars == <<u, u0, flux, todo, kind, mode>>

High(f) == IF f[1] = 1 THEN IF f[2] = NX THEN 0 ELSE f[2] ELSE IF f[3] = NY THEN 0 ELSE f[3]
HighCell(f) == IF f[1] = 1 THEN <<f[2], f[3]>> ELSE <<f[2], f[3]>>
LowCell(f) == IF f[1] = 1 THEN <<f[2] - 1, f[3]>> ELSE <<f[2], f[3] - 1>>
Inside(c) == c \in Cells
OnLow(f) == ~Inside(LowCell(f))
OnHigh(f) == ~Inside(HighCell(f))
Opp(f) == IF f[1] = 1 THEN <<1, NX - f[2], f[3]>> ELSE <<2, f[2], NY - f[3]>>
Wrap(c) == <<(c[1] + NX) % NX, (c[2] + NY) % NY>>
G(x) == x * x + x
Fhat(a, b) == (G(a) + G(b)) \div 2 + (a - b)
Val(s, c) == IF Inside(c) THEN s[c] ELSE s[Wrap(c)]

(* legal flux assignments *)
Legal(F, k) == \A f \in Faces :
                 (OnLow(f) \/ OnHigh(f)) => (IF k = "periodic" THEN F[f] = F[Opp(f)] ELSE F[f] = 0)
Free(k) == IF k = "periodic" THEN { f \in Faces : ~OnHigh(f) } ELSE { f \in Faces : ~OnLow(f) /\ ~OnHigh(f) }
Extend(g, k) == [f \in Faces |-> IF f \in DOMAIN g THEN g[f] ELSE IF k = "periodic" THEN g[Opp(f)] ELSE 0]

Init ==
  /\ kind \in Kinds /\ mode \in Modes
  /\ IF mode = "arbitrary"
     THEN /\ u = [c \in Cells |-> 1]
          /\ \E g \in [Free(kind) -> Vals] : flux = Extend(g, kind)
     ELSE /\ u \in [Cells -> Vals]
          /\ flux = [f \in Faces |-> IF kind = "wall" /\ (OnLow(f) \/ OnHigh(f)) THEN 0
                                     ELSE Fhat(Val(u, LowCell(f)), Val(u, HighCell(f)))]
  /\ u0 = u
  /\ todo = Faces

Apply(f) ==
  /\ f \in todo
  /\ u' = [c \in Cells |-> u[c] + (IF c = HighCell(f) THEN flux[f] ELSE 0) - (IF c = LowCell(f) THEN flux[f] ELSE 0)]
  /\ todo' = todo \ {f}
  /\ UNCHANGED <<u0, flux, kind, mode>>

(* canonical or any order: faces of one axis commute, so a representative    *)
(* set of orders is explored (any axis first, low to high or high to low)    *)
Ordered(f) == \/ \A g \in todo : f[1] < g[1] \/ (f[1] = g[1] /\ (f[2] < g[2] \/ (f[2] = g[2] /\ f[3] <= g[3])))
              \/ \A g \in todo : g[1] < f[1] \/ (f[1] = g[1] /\ (g[2] < f[2] \/ (f[2] = g[2] /\ g[3] <= f[3])))
Next == \E f \in todo : Ordered(f) /\ Apply(f)
Spec == Init /\ [][Next]_fvars

RECURSIVE SumSet(_, _)
SumSet(s, C) == IF C = {} THEN 0 ELSE LET c == CHOOSE c \in C : TRUE IN s[c] + SumSet(s, C \ {c})
FluxLegal == Legal(flux, kind)
Conserved == todo = {} => SumSet(u, Cells) = SumSet(u0, Cells)
(* a uniform state is a fixed point of every consistent flux (periodic)      *)
Uniform(s) == \A c, d \in Cells : s[c] = s[d]
StaysUniform == (todo = {} /\ mode = "consistent" /\ kind = "periodic" /\ Uniform(u0)) => u = u0
=============================================================================
