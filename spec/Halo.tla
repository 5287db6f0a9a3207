-------------------------------- MODULE Halo --------------------------------
(* Ghost-layer fill.  A cell value is symbolic: which global cell it comes  *)
(* from, which axes its vector components were mirrored in.                  *)
(*   [c |-> <<gx,gy,gz>>, s |-> <<b1,b2,b3>>]   b = 1: mirrored in the axis *)
(* Operational part: as the code does it, axis by axis, with borders copied *)
(* to buffers, exchanged with both neighbours, copied back.  Declarative    *)
(* part: Prescribed.                                                        *)
EXTENDS Topology

(* local cells of axis a: 0 .. n+2g-1 ; interior g .. n+g-1 *)
LocalRange(t, g, a) == IF a <= t.dim THEN 0 .. t.n[a] + 2 * g - 1 ELSE {0}
LocalCells(t, g) == { <<x, y, z>> : x \in LocalRange(t, g, 1), y \in LocalRange(t, g, 2), z \in LocalRange(t, g, 3) }
IsInterior(t, g, c) == \A a \in Axes(t) : c[a] >= g /\ c[a] < t.n[a] + g

(* global coordinate (may lie outside the domain) of a local cell *)
GCoord(t, g, p, c, a) == IF a <= t.dim THEN p[a] * t.n[a] + c[a] - g ELSE 0

NG(t, a) == M(t, a) * t.n[a]
(* source coordinate along axis a of global coordinate x, and mirror bit *)
Src(t, a, x) ==
  IF a > t.dim THEN <<0, 0>>
  ELSE IF x >= 0 /\ x < NG(t, a) THEN <<x, 0>>
  ELSE LET b == IF x < 0 THEN t.bc[2 * a - 1] ELSE t.bc[2 * a]
       IN  CASE b = PERIODIC  -> <<(x + NG(t, a)) % NG(t, a), 0>>
             [] b = NEUMANN   -> <<IF x < 0 THEN 0 ELSE NG(t, a) - 1, 0>>
             [] b = DIRICHLET -> <<IF x < 0 THEN -1 - x ELSE 2 * NG(t, a) - 1 - x, 1>>
             [] OTHER -> <<x, 0>>
(* the prescribed symbolic value of local cell c of the process at p *)
Prescribed(t, g, p, c) ==
  LET sx == Src(t, 1, GCoord(t, g, p, c, 1))
      sy == Src(t, 2, GCoord(t, g, p, c, 2))
      sz == Src(t, 3, GCoord(t, g, p, c, 3))
  IN  [c |-> <<sx[1], sy[1], sz[1]>>, s |-> <<sx[2], sy[2], sz[2]>>]

-----------------------------------------------------------------------------
CONSTANTS G, HaloTopos        \* ghost width, set of topologies
VARIABLES a,      \* a[p][c] : array of process p
          pc,     \* pc[p] = <<axis, phase>>
          buf     \* buf[p][f] : border received from beyond face f ("none")
hvars == <<topo, info, a, pc, buf>>

Junk == [c |-> <<-9, -9, -9>>, s |-> <<0, 0, 0>>]
None == <<>>

HInit ==
  /\ topo \in HaloTopos /\ info = <<>>
  /\ a = [p \in Positions(topo) |->
            [c \in LocalCells(topo, G) |->
               IF IsInterior(topo, G, c)
               THEN [c |-> <<GCoord(topo, G, p, c, 1), GCoord(topo, G, p, c, 2), GCoord(topo, G, p, c, 3)>>, s |-> <<0,0,0>>]
               ELSE Junk]]
  /\ pc = [p \in Positions(topo) |-> <<1, "post">>]
  /\ buf = [p \in Positions(topo) |-> [f \in Faces(topo) |-> None]]

(* cells of a face slab, as a function from in-slab offset *)
Slab(f) == { c \in LocalCells(topo, G) :
               LET ax == AxisOf(f) IN IF IsLow(f) THEN c[ax] \in G .. 2 * G - 1
                                      ELSE c[ax] \in topo.n[ax] .. topo.n[ax] + G - 1 }
GhostSlab(f) == { c \in LocalCells(topo, G) :
               LET ax == AxisOf(f) IN IF IsLow(f) THEN c[ax] \in 0 .. G - 1
                                      ELSE c[ax] \in topo.n[ax] + G .. topo.n[ax] + 2 * G - 1 }

(* copy both borders of the current axis and hand them to the neighbours *)
Post(p) ==
  /\ pc[p][2] = "post"
  /\ LET ax == pc[p][1]  lo == 2 * ax - 1  hi == 2 * ax
         ql == Beyond(topo, p, lo)  qh == Beyond(topo, p, hi)
         n == topo.n[ax]
         \* my low border becomes the neighbour's high ghost slab and vice versa
         bl == [c \in GhostSlab(hi) |-> a[p][[c EXCEPT ![ax] = @ - n]]]
         bh == [c \in GhostSlab(lo) |-> a[p][[c EXCEPT ![ax] = @ + n]]]
     IN  /\ buf[ql][hi] = None /\ buf[qh][lo] = None
         /\ buf' = [q \in DOMAIN buf |-> [f \in DOMAIN buf[q] |->
                      IF q = ql /\ f = hi THEN bl ELSE IF q = qh /\ f = lo THEN bh ELSE buf[q][f]]]
  /\ pc' = [pc EXCEPT ![p][2] = "back"]
  /\ UNCHANGED <<topo, info, a>>

Physical1(p, f, c) ==   \* value of ghost cell c of face f by the physical condition
  LET ax == AxisOf(f)  n == topo.n[ax]
      cond == FaceBC(topo, p, f)
      i == c[ax]
      i0 == CASE cond = NEUMANN -> IF IsLow(f) THEN G ELSE n + G - 1
              [] cond = DIRICHLET -> IF IsLow(f) THEN 2 * G - 1 - i ELSE 2 * n + 2 * G - 1 - i
              [] OTHER -> i
      v == a[p][[c EXCEPT ![ax] = i0]]
  IN  IF cond = DIRICHLET THEN [v EXCEPT !.s[ax] = 1 - @] ELSE v

(* both borders of the axis have arrived: fill both ghost slabs *)
Back(p) ==
  /\ pc[p][2] = "back"
  /\ LET ax == pc[p][1]  lo == 2 * ax - 1  hi == 2 * ax
     IN /\ buf[p][lo] # None /\ buf[p][hi] # None
        /\ a' = [a EXCEPT ![p] = [c \in DOMAIN a[p] |->
                   IF c \in GhostSlab(lo)
                   THEN IF Exchanged(topo, p, lo) THEN buf[p][lo][c] ELSE Physical1(p, lo, c)
                   ELSE IF c \in GhostSlab(hi)
                   THEN IF Exchanged(topo, p, hi) THEN buf[p][hi][c] ELSE Physical1(p, hi, c)
                   ELSE a[p][c]]]
        /\ buf' = [buf EXCEPT ![p] = [f \in DOMAIN buf[p] |-> IF f \in {lo, hi} THEN None ELSE buf[p][f]]]
        /\ pc' = [pc EXCEPT ![p] = IF ax < topo.dim THEN <<ax + 1, "post">> ELSE <<0, "done">>]
  /\ UNCHANGED <<topo, info>>

HNext == \E p \in Positions(topo) : Post(p) \/ Back(p)
AllDone == \A p \in Positions(topo) : pc[p][2] = "done"
HSpec == HInit /\ [][HNext]_hvars /\ WF_hvars(HNext)

\* a process that is done holds the prescribed value everywhere
GhostsPrescribed == \A p \in Positions(topo) : pc[p][2] = "done" =>
                      \A c \in LocalCells(topo, G) : a[p][c] = Prescribed(topo, G, p, c)
InteriorUntouched == \A p \in Positions(topo) : \A c \in LocalCells(topo, G) :
                      IsInterior(topo, G, c) => a[p][c] = Prescribed(topo, G, p, c)
NoDeadlock == AllDone \/ ENABLED HNext
Terminates == <>AllDone
=============================================================================
