---------------------------- MODULE TraceReplica ----------------------------
(* Recorded runs of the real solvers.  "ref" events introduce a reference    *)
(* run; the "rep" events after it are replicas that must follow it in lock   *)
(* step under their relation.  Cells are integers (multiples of 10^-9 of the *)
(* scale of the variable), stored flat: ((k*ny+j)*nx+i)*nvals + v*nf + d.    *)
EXTENDS Relation, TraceLib
VARIABLES l, ref

Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE IF k = 2 THEN b * b ELSE b * b * b

(* one piece of one recorded step of replica e against step s of the reference *)
Mismatches(e, s, q, pc) ==
  LET rel == e.rel
      nd == e.nd  nf == Pow(nd, e.dim)  nv == Len(e.vars)
      rnf == Pow(ref.nd, ref.dim)  rnv == Len(ref.vars)
      N == ref.size
      cm == TLCEval([v \in 1 .. nv |-> RefVar(rel, ref.vars, e.vars, v)])
      sg == TLCEval([v \in 1 .. nv |-> Sign(rel, e.vars, v)])
      sa == TLCEval([v \in 1 .. nv |-> IF e.vars[v].st = 1 THEN AxisInverse(rel, e.vars[v].ax) ELSE 0])
      dm == TLCEval([d \in 1 .. nf |-> RefDof(rel, nd, ref.dim, d - 1)])
      \* reference coordinates along each axis, plain and staggered
      X(a, g, st) == RefX(rel, a, N[a], g, st)
      sz == pc.size  org == pc.org  tol == e.tol
      Bad(i, j, k) ==
        LET g == <<org[1] + i, org[2] + j, org[3] + k>>
            base == ((k * sz[2] + j) * sz[1] + i) * nv * nf
        IN  \E v \in 1 .. nv :
              LET r1 == X(1, g[rel.perm[1]], IF sa[v] = 1 THEN 1 ELSE 0)
                  r2 == X(2, g[rel.perm[2]], IF sa[v] = 2 THEN 1 ELSE 0)
                  r3 == X(3, g[rel.perm[3]], IF sa[v] = 3 THEN 1 ELSE 0)
                  rb == ((r3 * N[2] + r2) * N[1] + r1) * rnv * rnf + (cm[v] - 1) * rnf
              IN  IF cm[v] = 0
                  THEN \E d \in 1 .. nf : Abs(q[base + (v - 1) * nf + d]) > tol
                  ELSE r1 >= 0 /\ r2 >= 0 /\ r3 >= 0 /\
                       \E d \in 1 .. nf :
                         ~Near(q[base + (v - 1) * nf + d], sg[v] * s.cells[rb + dm[d] + 1], tol)
  IN  { <<i, j, k>> \in (0 .. sz[1] - 1) \X (0 .. sz[2] - 1) \X (0 .. sz[3] - 1) : Bad(i, j, k) }

(* pieces tile the replica's domain *)
Tiles(e) ==
  /\ \A p \in 1 .. Len(e.pieces) : \A a \in 1 .. 3 : e.pieces[p].org[a] >= 0 /\ e.pieces[p].org[a] + e.pieces[p].size[a] <= e.size[a]
  /\ LET vol(z) == z[1] * z[2] * z[3]
         RECURSIVE S(_)
         S(i) == IF i = 0 THEN 0 ELSE vol(e.pieces[i].size) + S(i - 1)
     IN  S(Len(e.pieces)) = vol(e.size)
  /\ Cardinality({ e.pieces[p].org : p \in 1 .. Len(e.pieces) }) = Len(e.pieces)

\* the state of one process alone at one step: clock
ClockOK(e, s, st) == /\ \A r \in 1 .. Len(st.t) : Near(st.t[r], s.t, e.tol) /\ st.t[r] = st.t[1]
                     /\ \A r \in 1 .. Len(st.dt) : Near(st.dt[r], s.dt, e.tol) /\ st.dt[r] = st.dt[1]
                     /\ \A r \in 1 .. Len(st.it) : st.it[r] = s.it

Judge(e) ==
  IF e.ev = "ref" THEN TRUE
  ELSE IF Len(e.steps) # Len(ref.steps) THEN Reject(e.id, <<"steps", Len(ref.steps), Len(e.steps)>>)
  ELSE IF ~Tiles(e) THEN Reject(e.id, "pieces do not tile the domain")
  ELSE LET badclock == { k \in 1 .. Len(e.steps) : ~ClockOK(e, ref.steps[k], e.steps[k]) }
           haspieces(k) == Len(e.steps[k].cells) > 0
           bad(k) == { <<p, c>> \in UNION { { <<p, c>> : c \in Mismatches(e, ref.steps[k], e.steps[k].cells[p], e.pieces[p]) }
                                              : p \in 1 .. Len(e.pieces) } : TRUE }
           badcells == { k \in 1 .. Len(e.steps) : haspieces(k) /\ bad(k) # {} }
           first(s) == CHOOSE k \in s : \A j \in s : k <= j
       IN  IF badclock # {} /\ (badcells = {} \/ first(badclock) < first(badcells))
           THEN LET k == first(badclock) IN
                Reject(e.id, <<"clock", k, ref.steps[k].it, ref.steps[k].t, ref.steps[k].dt, e.steps[k].it, e.steps[k].t, e.steps[k].dt>>)
           ELSE IF badcells # {}
           THEN LET k == first(badcells)  b == bad(k) IN
                Reject(e.id, <<"cells", ref.steps[k].it, Cardinality(b), CHOOSE x \in b : TRUE>>)
           ELSE TRUE

TraceInit == l = 1 /\ ref = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ Judge(Trace[l])
             /\ ref' = IF Trace[l].ev = "ref" THEN Trace[l] ELSE ref
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, ref>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
