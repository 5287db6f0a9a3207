------------------------------- MODULE Vtk -------------------------------
(* VTK output of a domain spread over a grid of processes.  Every process    *)
(* writes its own piece: a header that announces, for every array, the byte  *)
(* position of its block, then the blocks, each preceded by its byte count.  *)
(* One process writes the index.  The writers run in any order.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, M, Dim, NV, Nd,  \* cells per process, process grid, dimensions, variables, points per element and axis (1: image data)
          Word, Count         \* bytes of a value and of a byte count
----------------------------------------------------------------------------
(* extents count faces in the global numbering; an axis that does not exist  *)
(* has the extent 0 0                                                        *)
Extent(pc, n, dim) == [i \in 1 .. 6 |-> LET a == (i + 1) \div 2 IN IF a > dim THEN 0 ELSE (pc[a] + ((i + 1) % 2)) * n[a]]
Whole(n, m, dim) == [i \in 1 .. 6 |-> LET a == (i + 1) \div 2 IN IF a > dim \/ i % 2 = 1 THEN 0 ELSE n[a] * m[a]]
(* cells of an extent, x fastest *)
Sz(e, a) == IF e[2 * a] > e[2 * a - 1] THEN e[2 * a] - e[2 * a - 1] ELSE IF e[2 * a] = e[2 * a - 1] THEN 1 ELSE 0
NCells(e) == Sz(e, 1) * Sz(e, 2) * Sz(e, 3)
CellAt(e, q) == <<e[1] + (q % Sz(e, 1)), e[3] + ((q \div Sz(e, 1)) % Sz(e, 2)), e[5] + (q \div (Sz(e, 1) * Sz(e, 2)))>>
Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE IF k = 2 THEN b * b ELSE b * b * b
(* sub-cells of an element: one per point *)
SubAt(d, nd) == <<d % nd, (d \div nd) % nd, d \div (nd * nd)>>
Corners(dim) == IF dim = 2 THEN << <<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>> >>
                ELSE << <<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>> >>
CellType(dim) == IF dim = 2 THEN 9 ELSE 12
(* node of corner q of sub-cell d of the element with number el *)
Node(el, d, q, nd, dim) == LET s == SubAt(d, nd)  c == Corners(dim)[q]
                           IN  el * Pow(nd + 1, dim) + (s[1] + c[1]) + (nd + 1) * (s[2] + c[2]) + (nd + 1) * (nd + 1) * (s[3] + c[3])
(* place of a node inside its element, 0 .. nd along each axis *)
NodeAt(k, nd, dim) == LET r == k % Pow(nd + 1, dim) IN <<r % (nd + 1), (r \div (nd + 1)) % (nd + 1), IF dim = 3 THEN r \div ((nd + 1) * (nd + 1)) ELSE 0>>
(* what the file announces *)
BlockBytes(n, dim, nd, word) == n[1] * n[2] * (IF dim = 3 THEN n[3] ELSE 1) * Pow(nd, dim) * word
Offset(v, n, dim, nd, word, cnt) == (v - 1) * (BlockBytes(n, dim, nd, word) + cnt)
----------------------------------------------------------------------------
VARIABLES piece,  \* process -> [ann, blocks, at]: announced positions, blocks written, bytes so far
          index   \* extents named by the index file, <<>> before it is written
vars == <<piece, index>>
Procs == (0 .. M[1] - 1) \X (0 .. M[2] - 1) \X (0 .. M[3] - 1)
Init == piece = [p \in Procs |-> [ann |-> <<>>, blocks |-> <<>>, at |-> 0]] /\ index = <<>>
Header(p) == /\ piece[p].ann = <<>>
           /\ piece' = [piece EXCEPT ![p].ann = [v \in 1 .. NV |-> Offset(v, N, Dim, Nd, Word, Count)]] /\ UNCHANGED index
(* the value of a cell (or of a point of an element) is its own name *)
Vals(p, v) == LET e == Extent(p, N, Dim)  nf == Pow(Nd, Dim) IN [q \in 1 .. NCells(e) * nf |-> <<CellAt(e, (q - 1) \div nf), (q - 1) % nf, v>>]
Block(p) == /\ piece[p].ann # <<>> /\ Len(piece[p].blocks) < NV
            /\ LET v == Len(piece[p].blocks) + 1
                   b == [pos |-> piece[p].at, bytes |-> Len(Vals(p, v)) * Word, vals |-> Vals(p, v)]
               IN piece' = [piece EXCEPT ![p].blocks = Append(@, b), ![p].at = @ + Count + b.bytes]
            /\ UNCHANGED index
Index == index = <<>> /\ index' = [p \in Procs |-> Extent(p, N, Dim)] /\ UNCHANGED piece
Next == Index \/ \E p \in Procs : Header(p) \/ Block(p)
Spec == Init /\ [][Next]_vars
Done == index # <<>> /\ \A p \in Procs : Len(piece[p].blocks) = NV
----------------------------------------------------------------------------
(* P16 *)
OffsetsTrue == \A p \in Procs : \A v \in 1 .. Len(piece[p].blocks) :
                 /\ piece[p].ann[v] = piece[p].blocks[v].pos
                 /\ piece[p].blocks[v].bytes = BlockBytes(N, Dim, Nd, Word)
(* read through the index: every cell of the whole extent exactly once, with its own value *)
ReadBack == Done =>
  LET w == Whole(N, M, Dim)
      nf == Pow(Nd, Dim)
      all == { <<p, q>> \in Procs \X (0 .. NCells(Extent(<<0, 0, 0>>, N, Dim)) - 1) : TRUE }
      cell(x) == CellAt(index[x[1]], x[2])
  IN  /\ Cardinality({ cell(x) : x \in all }) = Cardinality(all)
      /\ { cell(x) : x \in all } = { CellAt(w, q) : q \in 0 .. NCells(w) - 1 }
      /\ \A x \in all : \A v \in 1 .. NV, d \in 0 .. nf - 1 : piece[x[1]].blocks[v].vals[x[2] * nf + d + 1] = <<cell(x), d, v>>
(* the sub-cells of an element tile it: the cell of node places s .. s+1 is   *)
(* named by exactly one point                                                *)
SubCellsTile ==
  LET places(d) == { NodeAt(Node(0, d, q, Nd, Dim), Nd, Dim) : q \in 1 .. Len(Corners(Dim)) }
      box(d) == LET s == SubAt(d, Nd) IN (s[1] .. s[1] + 1) \X (s[2] .. s[2] + 1) \X (IF Dim = 3 THEN s[3] .. s[3] + 1 ELSE {0})
  IN  \A d \in 0 .. Pow(Nd, Dim) - 1 : places(d) = box(d)
=============================================================================
