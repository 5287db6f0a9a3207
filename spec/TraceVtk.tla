----------------------------- MODULE TraceVtk -----------------------------
(* Recorded VTK snapshots judged by Vtk.tla.  Values are given as numbers of *)
(* their bit patterns (binary) or of their printed form (text).  want: the   *)
(* interior values of every process in grid order; pieces: what the piece    *)
(* files hold; index: the index file of a parallel run.  Lengths in units of *)
(* 10^-4 cells (points) or 10^-6 (origin, spacing).                          *)
EXTENDS TraceLib, FiniteSets
VARIABLE l
V == INSTANCE Vtk WITH N <- <<1, 1, 1>>, M <- <<1, 1, 1>>, Dim <- 2, NV <- 1, Nd <- 1, Word <- 8, Count <- 8, piece <- <<>>, index <- <<>>
First(s) == CHOOSE a \in s : \A b \in s : a <= b
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Near(a[i], b[i], tol)
(* the values of one piece *)
Values(e, p) ==
  LET w == e.want[p]  f == e.pieces[p]
      bad == { v \in 1 .. Len(e.names) : f.v[v] # w.v[v] }
  IN  CASE f.names # e.names -> <<"names", f.names>>
        [] \E v \in 1 .. Len(e.names) : f.types[v] # e.type -> <<"types", f.types>>
        [] bad # {} -> LET v == First(bad) IN
             <<"variable", e.names[v], "piece", w.pc, IF Len(f.v[v]) # Len(w.v[v]) THEN <<"values", Len(f.v[v]), Len(w.v[v])>>
               ELSE <<"differs at", First({ i \in 1 .. Len(w.v[v]) : w.v[v][i] # f.v[v][i] }), "of", Len(w.v[v])>> >>
        [] OTHER -> <<>>
Image(e, p) ==
  LET w == e.want[p]  f == e.pieces[p]
      x == V!Extent(w.pc, e.n, e.dim)
  IN  CASE f.extent # x -> <<"extent", f.extent, "wanted", x>>
        [] f.whole # x /\ f.whole # V!Whole(e.n, e.m, e.dim) -> <<"whole extent", f.whole>>
        [] ~NearSeq(f.origin, e.origin, 8) -> <<"origin", f.origin, e.origin>>
        [] ~NearSeq(f.spacing, e.spacing, 8) -> <<"spacing", f.spacing, e.spacing>>
        [] OTHER -> <<>>
ImageIndex(e) ==
  LET x == e.index
  IN  CASE x.whole # V!Whole(e.n, e.m, e.dim) -> <<"index: whole extent", x.whole>>
        [] ~NearSeq(x.origin, e.origin, 8) -> <<"index: origin", x.origin>>
        [] ~NearSeq(x.spacing, e.spacing, 8) -> <<"index: spacing", x.spacing>>
        [] \E p \in 1 .. Len(e.pieces) : x.extents[p] # e.pieces[p].extent -> <<"index: extents", x.extents>>
        [] OTHER -> <<>>
Index(e) ==
  LET x == e.index
  IN  CASE x.names # e.names -> <<"index: names", x.names>>
        [] \E v \in 1 .. Len(e.names) : x.types[v] # e.type -> <<"index: types", x.types>>
        [] Len(x.sources) # Len(e.pieces) -> <<"index: pieces", Len(x.sources)>>
        [] \E p \in 1 .. Len(e.pieces) : x.sources[p] # e.pieces[p].file -> <<"index: sources", x.sources>>
        [] e.kind = "image" -> ImageIndex(e)
        [] OTHER -> <<>>
(* the mesh of a spectral-difference snapshot *)
Mesh(e, p) ==
  LET w == e.want[p]  f == e.pieces[p]
      nf == V!Pow(e.nd, e.dim)
      x == V!Extent(w.pc, e.n, e.dim)
      ne == V!NCells(x)
      co == V!Corners(e.dim)
      nc == Len(co)
      \* place of the q-th corner of the sub-cell
      pt(s, q) == f.points[f.conn[(s - 1) * nc + q] + 1]
      cell(s) == V!CellAt(x, (s - 1) \div nf)
      sub(s) == V!SubAt((s - 1) % nf, e.nd)
      wrong(s) == \E q \in 1 .. nc : \E a \in 1 .. e.dim :
                    ~Near(pt(s, q)[a], 10000 * cell(s)[a] + f.edges[a][sub(s)[a] + co[q][a] + 1], 4)
      bad == { s \in 1 .. ne * nf : wrong(s) }
      edgesOK == \A a \in 1 .. e.dim : /\ Near(f.edges[a][1], 0, 4) /\ Near(f.edges[a][e.nd + 1], 10000, 4)
                                       /\ \A i \in 1 .. e.nd : f.edges[a][i] < e.sol[i] /\ e.sol[i] < f.edges[a][i + 1]
  IN  CASE f.npoints # Len(f.points) \/ f.ncells # ne * nf -> <<"sizes", f.npoints, f.ncells>>
        [] Len(f.conn) # ne * nf * nc -> <<"connectivity", Len(f.conn)>>
        [] \E i \in 1 .. Len(f.conn) : f.conn[i] < 0 \/ f.conn[i] >= Len(f.points) -> <<"connectivity names an absent point">>
        [] f.offsets # [i \in 1 .. ne * nf |-> nc * i] -> <<"offsets">>
        [] f.ctypes # [i \in 1 .. ne * nf |-> V!CellType(e.dim)] -> <<"cell types">>
        [] ~edgesOK -> <<"sub-cells do not contain their points", f.edges, e.sol>>
        [] bad # {} -> <<"sub-cell", First(bad), "of element", cell(First(bad)), Cardinality(bad)>>
        [] e.dim = 2 /\ (\E i \in 1 .. Len(f.points) : f.points[i][3] # 0) -> <<"points not in the plane">>
        [] f.cycle # e.num -> <<"cycle", f.cycle>>
        [] ~Near(f.time, e.time, 60) -> <<"time", f.time, e.time>>
        [] OTHER -> <<>>
Snapshot(e) ==
  LET np == 1 .. Len(e.want)
      bad == { p \in np : Values(e, p) # <<>> }
      grid(p) == IF e.kind = "image" THEN Image(e, p) ELSE Mesh(e, p)
      badg == { p \in np : grid(p) # <<>> }
  IN  CASE Len(e.pieces) # e.m[1] * e.m[2] * e.m[3] \/ Len(e.want) # Len(e.pieces) -> <<"pieces", Len(e.pieces)>>
        [] e.why # "" -> <<"unreadable", e.why>>
        [] bad # {} -> Values(e, First(bad))
        [] badg # {} -> grid(First(badg))
        [] e.index.there = 1 /\ Index(e) # <<>> -> Index(e)
        [] OTHER -> <<>>
Judge(e) == LET w == Snapshot(e) IN IF w = <<>> THEN TRUE ELSE Reject(e.id, w)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
