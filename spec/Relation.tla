------------------------------ MODULE Relation ------------------------------
(* How a replica of a run is related to the reference run: an axis           *)
(* permutation, reflections, periodic shifts, extrusion (the reference lacks *)
(* an axis), and the induced action on vector components, staggered (face    *)
(* centred) components and points inside a cell.                             *)
(*  rel.perm[a]  axis of the replica that plays the role of reference axis a *)
(*  rel.refl[a]  1 if reference axis a is reversed                           *)
(*  rel.shift[a] cells added (cyclically) after that                         *)
(*  rel.per[a]   1 if the reference is periodic in a                         *)
EXTENDS Integers, Sequences, FiniteSets

Identity == [perm |-> <<1, 2, 3>>, refl |-> <<0, 0, 0>>, shift |-> <<0, 0, 0>>, per |-> <<0, 0, 0>>]

(* reference coordinate for coordinate x along reference axis a of extent n; *)
(* stag = 1 when the component lives on the low face of the cell along a.    *)
(* -1: the value lies outside what the reference stores (no statement)       *)
RefX(rel, a, n, x, stag) ==
  LET y == IF rel.refl[a] = 1 THEN n - 1 - x + stag ELSE x
  IN  IF rel.per[a] = 1 THEN (y + rel.shift[a]) % n
      ELSE IF n = 1 THEN 0
      ELSE IF y < n THEN y ELSE -1

(* variables: a sequence of records [g |-> group, ax |-> axis (0 scalar), st |-> staggered] *)
AxisInverse(rel, b) == CHOOSE a \in 1 .. 3 : rel.perm[a] = b
(* index of the reference variable that variable v of the replica corresponds to, 0 if none *)
RefVar(rel, refvars, repvars, v) ==
  LET k == repvars[v]
      ra == IF k.ax = 0 THEN 0 ELSE AxisInverse(rel, k.ax)
      s == { w \in 1 .. Len(refvars) : refvars[w].g = k.g /\ refvars[w].ax = ra }
  IN  IF s = {} THEN 0 ELSE CHOOSE w \in s : TRUE
(* sign of the component under the reflections *)
Sign(rel, repvars, v) ==
  LET k == repvars[v] IN IF k.ax = 0 THEN 1 ELSE IF rel.refl[AxisInverse(rel, k.ax)] = 1 THEN -1 ELSE 1

(* points inside a cell: nd per axis, position d = ix + nd*iy + nd*nd*iz *)
DofCoord(nd, d, a) == IF a = 1 THEN d % nd ELSE IF a = 2 THEN (d \div nd) % nd ELSE d \div (nd * nd)
RefDof(rel, nd, dim, d) ==
  LET q(a) == LET x == DofCoord(nd, d, rel.perm[a]) IN IF rel.refl[a] = 1 THEN nd - 1 - x ELSE x
  IN  q(1) + nd * q(2) + (IF dim = 3 THEN nd * nd * q(3) ELSE 0)
=============================================================================
