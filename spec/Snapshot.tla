------------------------------ MODULE Snapshot ------------------------------
(* Snapshots of a domain split over a process grid.  Every process holds a   *)
(* block of cells with ghost cells around; ghosts are filled at the start of *)
(* a step and stale after it.  A snapshot is written block by block, in any  *)
(* order; in one of five arrangements:                                       *)
(*   plain  interiors at their place in the global grid                      *)
(*   ghost  the global grid with the outer ghost cells (blocks overlap)      *)
(*   all    every block with all its ghosts, side by side                    *)
(*   slab   interiors one after the other along the last axis, by rank       *)
(*   slabg  blocks with ghosts one after the other                           *)
(* and read back by the same or (plain, ghost) any other process grid.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"plain", "ghost", "all", "slab", "slabg"}
Ghosted(k) == k \in {"ghost", "all", "slabg"}
Ax == 1 .. 3
(* n: cells per process, m: processes, w: ghost width per axis, dim          *)
Procs(m) == m[1] * m[2] * m[3]
Dims(k, n, m, w, dim) ==
  [a \in Ax |-> CASE k = "plain" -> n[a] * m[a]
                  [] k = "ghost" -> n[a] * m[a] + 2 * w[a]
                  [] k = "all" -> m[a] * (n[a] + 2 * w[a])
                  [] k = "slab" -> IF a = dim THEN n[a] * Procs(m) ELSE n[a]
                  [] k = "slabg" -> (n[a] + 2 * w[a]) * (IF a = dim THEN Procs(m) ELSE 1)]
Inner(l, n, w) == \A a \in Ax : l[a] >= w[a] /\ l[a] < w[a] + n[a]
(* where a local cell (ghosts counted from 0) of the process at pc goes; <<>> when it is not written *)
Where(k, pc, rank, l, n, m, w, dim) ==
  IF k \in {"plain", "slab"} /\ ~Inner(l, n, w) THEN <<>>
  ELSE [a \in Ax |-> CASE k = "plain" -> pc[a] * n[a] + l[a] - w[a]
                       [] k = "ghost" -> pc[a] * n[a] + l[a]
                       [] k = "all" -> pc[a] * (n[a] + 2 * w[a]) + l[a]
                       [] k = "slab" -> l[a] - w[a] + (IF a = dim THEN rank * n[a] ELSE 0)
                       [] k = "slabg" -> l[a] + (IF a = dim THEN rank * (n[a] + 2 * w[a]) ELSE 0)]
Grid(d) == (0 .. d[1] - 1) \X (0 .. d[2] - 1) \X (0 .. d[3] - 1)
Block(n, w) == Grid([a \in Ax |-> n[a] + 2 * w[a]])
Flat(p, d) == ((p[3] * d[2] + p[2]) * d[1] + p[1]) + 1

(* ------------------------------- the system ------------------------------ *)
CONSTANTS Per, M, Layouts, Readers, Dim, W
VARIABLES ver, fresh, prev, file, todo, kind, mem, reader
svars == <<ver, fresh, prev, file, todo, kind, mem, reader>>
Ranks == [pc \in Grid(M) |-> (pc[1] * M[2] + pc[2]) * M[3] + pc[3]]
None == <<>>
Global == [a \in Ax |-> Per[a] * M[a]]
Wrap(g) == [a \in Ax |-> (g[a] + Global[a]) % Global[a]]
At(pc, l) == [a \in Ax |-> pc[a] * Per[a] + l[a] - W[a]]
Val(pc, l) == IF Inner(l, Per, W) THEN <<At(pc, l), ver>> ELSE <<Wrap(At(pc, l)), IF fresh THEN ver ELSE prev>>
Init == /\ ver = 0 /\ prev = 0 /\ fresh = TRUE /\ kind = "" /\ file = None /\ todo = {} /\ mem = None /\ reader = <<>>
Step == /\ kind = "" /\ ver < 2 /\ fresh
        /\ ver' = ver + 1 /\ prev' = ver /\ fresh' = FALSE /\ UNCHANGED <<file, todo, kind, mem, reader>>
Fill == kind = "" /\ ~fresh /\ fresh' = TRUE /\ UNCHANGED <<ver, prev, file, todo, kind, mem, reader>>
(* ghosts are written: they are filled first *)
Open == /\ kind = "" /\ \E k \in Layouts : /\ Ghosted(k) => fresh
                                           /\ kind' = k /\ file' = [p \in Grid(Dims(k, Per, M, W, Dim)) |-> None] /\ todo' = Grid(M)
        /\ UNCHANGED <<ver, fresh, prev, mem, reader>>
Write == /\ kind # "" /\ todo # {} /\ reader = <<>>
         /\ \E pc \in todo :
              LET off == TLCEval(Where(kind, pc, Ranks[pc], W, Per, M, W, Dim))     \* where the first inner cell goes
                  Put(p) == LET l == [a \in Ax |-> p[a] - off[a] + W[a]]
                            IN  IF \/ \E a \in Ax : l[a] < 0 \/ l[a] >= Per[a] + 2 * W[a]
                                   \/ Where(kind, pc, Ranks[pc], l, Per, M, W, Dim) = <<>>
                                THEN file[p] ELSE Val(pc, l)
              IN  file' = [p \in DOMAIN file |-> Put(p)] /\ todo' = todo \ {pc}
         /\ UNCHANGED <<ver, fresh, prev, kind, mem, reader>>
(* a reader with m2 processes of n2 cells reads the block it would have written *)
Read == /\ kind # "" /\ todo = {} /\ reader = <<>>
        /\ \E m2 \in Readers :
             /\ (kind \notin {"plain", "ghost"}) => m2 = M
             /\ \A a \in Ax : Global[a] % m2[a] = 0
             /\ LET n2 == [a \in Ax |-> Global[a] \div m2[a]]
                    rk(pc) == (pc[1] * m2[2] + pc[2]) * m2[3] + pc[3]
                IN  mem' = [pc \in Grid(m2) |-> [l \in { x \in Block(n2, W) : Inner(x, n2, W) } |->
                              <<[a \in Ax |-> pc[a] * n2[a] + l[a] - W[a]], file[Where(kind, pc, rk(pc), l, n2, m2, W, Dim)]>>]]
             /\ reader' = m2
        /\ UNCHANGED <<ver, fresh, prev, file, todo, kind>>
Next == Step \/ Fill \/ Open \/ Write \/ Read
Spec == Init /\ [][Next]_svars
(* a finished file has every position, interiors where they belong and current, ghosts belonging to the same state *)
Complete == (kind # "" /\ todo = {}) =>
  /\ \A p \in DOMAIN file : file[p] # None
  /\ \A pc \in Grid(M), l \in Block(Per, W) :
       LET p == Where(kind, pc, Ranks[pc], l, Per, M, W, Dim)
       IN  p # <<>> => file[p] = <<Wrap(At(pc, l)), ver>>
LoadsBack == reader # <<>> => \A pc \in DOMAIN mem : \A l \in DOMAIN mem[pc] : mem[pc][l][2] = <<mem[pc][l][1], ver>>
=============================================================================
