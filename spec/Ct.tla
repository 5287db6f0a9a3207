-------------------------------- MODULE Ct --------------------------------
(* Constrained transport: face-centred field on a periodic NX x NY x NZ grid *)
(* updated by the circulation of an ARBITRARY electromotive force on each    *)
(* edge, one edge at a time in any order.  Divergence of every cell and the  *)
(* total flux along each axis are invariants of every such update.           *)
(* Also: prolongation of a coarse field to a grid of twice the resolution    *)
(* (restart with upscaling) keeps the divergence at zero.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NX, NY, NZ, EVals, MaxEdges, Two
VARIABLES B, k
cvars == <<B, k>>
N == <<NX, NY, NZ>>
P3 == (0 .. NX - 1) \X (0 .. NY - 1) \X (0 .. NZ - 1)
Up(c, a) == [c EXCEPT ![a] = (c[a] + 1) % N[a]]
Dn(c, a) == [c EXCEPT ![a] = (c[a] + N[a] - 1) % N[a]]
(* magnetic flux through the low face of cell c normal to axis a: B[a][c]    *)
Faces == 1 .. 3
Dims == IF Two THEN {1, 2} ELSE {1, 2, 3}
DivAt(b, c) == LET d(a) == b[a][Up(c, a)] - b[a][c]
               IN  IF Two THEN d(1) + d(2) ELSE d(1) + d(2) + d(3)
(* the edge along axis e at the low corner of c: circulation                 *)
Nxt(e) == 1 + (e % 3)
AddEdge(b, e, c, x) ==
  LET a == Nxt(e)  d == Nxt(a)     \* right handed: e, a, d
  IN  [b EXCEPT ![a][c] = @ - x, ![a][Dn(c, d)] = @ + x, ![d][c] = @ + x, ![d][Dn(c, a)] = @ - x]
Init == /\ k = 0
        /\ B = [a \in Faces |-> [c \in P3 |-> IF a = 1 THEN 2 ELSE 0]]
Edges == IF Two THEN {3} ELSE {1, 2, 3}
Update == /\ k < MaxEdges
          /\ \E e \in Edges, c \in P3, x \in EVals : B' = AddEdge(B, e, c, x)
          /\ k' = k + 1
Spec == Init /\ [][Update]_cvars
DivFree == \A c \in P3 : DivAt(B, c) = 0
RECURSIVE SumSet(_, _)
SumSet(s, C) == IF C = {} THEN 0 ELSE LET c == CHOOSE c \in C : TRUE IN s[c] + SumSet(s, C \ {c})
FluxConst == \A a \in Dims : SumSet(B[a], P3) = (IF a = 1 THEN 2 * NX * NY * NZ ELSE 0)

(* upscaling by two: fine faces on coarse faces copy the coarse value, fine  *)
(* faces inside a coarse cell take the mean of the two coarse faces.  Values *)
(* doubled to stay integral.                                                 *)
Half(c) == <<c[1] \div 2, c[2] \div 2, IF Two THEN 0 ELSE c[3] \div 2>>
Fine(b, a, c) == LET h == Half(c)
                 IN  IF c[a] % 2 = 0 THEN 2 * b[a][h] ELSE b[a][h] + b[a][Up(h, a)]
FN == <<2 * NX, 2 * NY, IF Two THEN 1 ELSE 2 * NZ>>
FUp(c, a) == [c EXCEPT ![a] = (c[a] + 1) % FN[a]]
FP == (0 .. FN[1] - 1) \X (0 .. FN[2] - 1) \X (0 .. FN[3] - 1)
FineDivFree == \A c \in FP : LET d(a) == Fine(B, a, FUp(c, a)) - Fine(B, a, c)
                             IN  (IF Two THEN d(1) + d(2) ELSE d(1) + d(2) + d(3)) = 0

(* --- recorded fields: flux through faces as integers ----------------------*)
(* F[a] flat arrays with one extra layer above (sizes sz[b]+1), i fastest    *)
FaceAt(F, sz, a, i, j, l) == F[a][((l * (sz[2] + 1) + j) * (sz[1] + 1) + i) + 1]
RecordedDiv(F, sz, dim, i, j, l) ==
  (FaceAt(F, sz, 1, i + 1, j, l) - FaceAt(F, sz, 1, i, j, l)) + (FaceAt(F, sz, 2, i, j + 1, l) - FaceAt(F, sz, 2, i, j, l))
  + (IF dim = 3 THEN FaceAt(F, sz, 3, i, j, l + 1) - FaceAt(F, sz, 3, i, j, l) ELSE 0)
=============================================================================
