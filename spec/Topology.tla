------------------------------ MODULE Topology ------------------------------
(* Cartesian decomposition of the global grid over processes.               *)
(* A topology is a record                                                   *)
(*   [dim |-> 2|3, m |-> <<mx,my,mz>>, n |-> <<nx,ny,nz>> (cells per        *)
(*    process), bc |-> six physical boundary codes (xmin,xmax,...,zmax)]    *)
EXTENDS Integers, Sequences, FiniteSets

BC_UNDEF == 0   DIRICHLET == 1   NEUMANN == 2   PERIODIC == 3   COPY == 4

Axes(t) == 1 .. t.dim
Faces(t) == 1 .. 2 * t.dim               \* 2a-1 = lower, 2a = upper face of axis a
AxisOf(f) == (f + 1) \div 2
IsLow(f) == f % 2 = 1

M(t, a) == IF a <= t.dim THEN t.m[a] ELSE 1
NProcs(t) == M(t, 1) * M(t, 2) * M(t, 3)
Positions(t) == { <<x, y, z>> : x \in 0 .. M(t,1) - 1, y \in 0 .. M(t,2) - 1, z \in 0 .. M(t,3) - 1 }

\* sub-domain beyond face f of the process at position p, cyclically
Beyond(t, p, f) ==
  LET a == AxisOf(f)  d == IF IsLow(f) THEN -1 ELSE 1
  IN [p EXCEPT ![a] = (@ + d + M(t, a)) % M(t, a)]

OnGlobalFace(t, p, f) ==
  LET a == AxisOf(f) IN p[a] = (IF IsLow(f) THEN 0 ELSE M(t, a) - 1)

\* the condition used on a face of a process
FaceBC(t, p, f) == IF OnGlobalFace(t, p, f) THEN t.bc[f] ELSE COPY

\* does the face get its ghost cells from another process ?
Exchanged(t, p, f) == FaceBC(t, p, f) \in {COPY, PERIODIC}

\* cells owned along axis a
Owned(t, p, a) == p[a] * t.n[a] .. (p[a] + 1) * t.n[a] - 1
Global(t, a) == 0 .. M(t, a) * t.n[a] - 1
OwnerPos(t, g) == <<g[1] \div t.n[1], g[2] \div t.n[2], IF t.dim = 3 THEN g[3] \div t.n[3] ELSE 0>>

-----------------------------------------------------------------------------
(* state machine: every process sets itself up on its own                   *)
CONSTANTS MaxM, BCs, CellsPerProc
VARIABLES topo, info     \* info: position -> what the process has computed

Topos == { [dim |-> d, m |-> <<a, b, IF d = 3 THEN c ELSE 1>>, n |-> CellsPerProc, bc |-> s] :
             d \in {2, 3}, a \in 1 .. MaxM, b \in 1 .. MaxM, c \in 1 .. 2, s \in BCs }

TInit == topo \in Topos /\ info = <<>>

SetUp(p) ==
  /\ p \notin DOMAIN info
  /\ info' = [q \in DOMAIN info \cup {p} |->
                IF q = p
                THEN [nb |-> [f \in Faces(topo) |-> Beyond(topo, p, f)],
                      bc |-> [f \in Faces(topo) |-> FaceBC(topo, p, f)],
                      cells |-> [a \in Axes(topo) |-> Owned(topo, p, a)]]
                ELSE info[q]]
  /\ UNCHANGED topo

TNext == \E p \in Positions(topo) : SetUp(p)
TSpec == TInit /\ [][TNext]_<<topo, info>>

Opp(f) == IF IsLow(f) THEN f + 1 ELSE f - 1

Reciprocal == \A p \in DOMAIN info : \A f \in Faces(topo) :
                LET q == info[p].nb[f] IN q \in DOMAIN info => info[q].nb[Opp(f)] = p
Disjoint == \A p, q \in DOMAIN info : p # q =>
              \E a \in Axes(topo) : info[p].cells[a] \cap info[q].cells[a] = {}
Covers == DOMAIN info = Positions(topo) =>
            \A a \in Axes(topo) : UNION { info[p].cells[a] : p \in DOMAIN info } = Global(topo, a)
\* a physical condition sits exactly on the faces of the global domain
Physical == \A p \in DOMAIN info : \A f \in Faces(topo) :
              (info[p].bc[f] # COPY) =
                 ((IF IsLow(f) THEN 0 ELSE M(topo, AxisOf(f)) * topo.n[AxisOf(f)] - 1) \in info[p].cells[AxisOf(f)])
\* the two sides of an inner face agree that they exchange
Matched == \A p \in DOMAIN info : \A f \in Faces(topo) :
             LET q == info[p].nb[f] IN
               (q \in DOMAIN info /\ info[p].bc[f] = COPY) => info[q].bc[Opp(f)] = COPY
=============================================================================
