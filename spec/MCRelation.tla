----------------------------- MODULE MCRelation -----------------------------
(* The relation algebra itself: for small grids, the reference coordinate of *)
(* every plain cell is inside the reference grid and the map replica cell -> *)
(* reference cell is a bijection that is undone by its inverse; dof maps are *)
(* permutations; the action on vector components is consistent with axes.    *)
EXTENDS Relation, TLC
CONSTANTS MaxN
VARIABLES rel, N

Perms == { p \in [1 .. 3 -> 1 .. 3] : \A a, b \in 1 .. 3 : p[a] = p[b] => a = b }
Bits == [1 .. 3 -> 0 .. 1]
Init == /\ N \in [1 .. 3 -> 1 .. MaxN]
        /\ \E p \in Perms, f \in Bits, q \in Bits, s \in [1 .. 3 -> 0 .. 1] :
             rel = [perm |-> p, refl |-> f, shift |-> [a \in 1 .. 3 |-> IF q[a] = 1 THEN s[a] ELSE 0], per |-> q]
Next == UNCHANGED <<rel, N>>

MapsOntoCells ==
  \A a \in 1 .. 3 : { RefX(rel, a, N[a], x, 0) : x \in 0 .. N[a] - 1 } = 0 .. N[a] - 1
\* low faces of the replica are faces of the reference: the two faces of a cell map to the two faces of its image
FacesFollowCells ==
  \A a \in 1 .. 3 : rel.per[a] = 1 =>
    \A x \in 0 .. N[a] - 1 :
      LET c == RefX(rel, a, N[a], x, 0)
          lo == RefX(rel, a, N[a], x, 1)
          hi == RefX(rel, a, N[a], (x + 1) % N[a], 1)
      IN  {lo, hi} = {c, (c + 1) % N[a]} /\ (rel.refl[a] = 0 => lo = c)
DofsArePermuted ==
  \A nd \in 1 .. 3 : { RefDof(rel, nd, 3, d) : d \in 0 .. nd * nd * nd - 1 } = 0 .. nd * nd * nd - 1
Spec == Init /\ [][Next]_<<rel, N>>
=============================================================================
