------------------------------ MODULE TraceHalo ------------------------------
(* arrays recorded after the real ghost fill, started from interior cells   *)
(* tagged with distinct integers and ghosts filled with junk                *)
EXTENDS Halo, TraceLib
VARIABLE l

T(e) == [dim |-> e.dim, m |-> e.m, n |-> e.n, bc |-> e.bc]

Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE IF k = 2 THEN b * b ELSE b * b * b
\* e.nd points per axis inside a cell (1 for finite volumes), e.ax = vector axis of each variable (0 scalar)
Expected(e, t, src, v, d) ==
  LET nd == e.nd  nf == Pow(nd, t.dim)
      dx == d % nd  dy == (d \div nd) % nd  dz == d \div (nd * nd)
      mx == IF src.s[1] = 1 THEN nd - 1 - dx ELSE dx
      my == IF src.s[2] = 1 THEN nd - 1 - dy ELSE dy
      mz == IF src.s[3] = 1 THEN nd - 1 - dz ELSE dz
      df == mx + nd * my + nd * nd * mz
      cell == (src.c[3] * NG(t, 2) + src.c[2]) * NG(t, 1) + src.c[1]
      tag == (cell * Len(e.ax) + v) * nf + df + 1
      ax == e.ax[v + 1]
  IN  IF ax > 0 /\ src.s[ax] = 1 THEN -tag ELSE tag

RankOK(e, t, r) ==
  LET nd == e.nd  nf == Pow(nd, t.dim)  nv == Len(e.ax)  g == e.gw
      sx == t.n[1] + 2 * g  sy == t.n[2] + 2 * g  sz == IF t.dim = 3 THEN t.n[3] + 2 * g ELSE 1
  IN  /\ Len(r.vals) = sx * sy * sz * nv * nf
      /\ \A z \in 0 .. sz - 1, y \in 0 .. sy - 1, x \in 0 .. sx - 1 :
           LET src == Prescribed(t, g, r.pos, <<x, y, z>>)
               base == ((z * sy + y) * sx + x) * nv * nf
           IN  \A v \in 0 .. nv - 1, d \in 0 .. nf - 1 :
                 r.vals[base + v * nf + d + 1] = Expected(e, t, src, v, d)

BadCells(e, t, r) ==   \* diagnostics: first wrong cell
  LET nd == e.nd  nf == Pow(nd, t.dim)  nv == Len(e.ax)  g == e.gw
      sx == t.n[1] + 2 * g  sy == t.n[2] + 2 * g  sz == IF t.dim = 3 THEN t.n[3] + 2 * g ELSE 1
      bad == { <<z, y, x>> \in (0 .. sz - 1) \X (0 .. sy - 1) \X (0 .. sx - 1) :
           LET src == Prescribed(t, g, r.pos, <<x, y, z>>)
               base == ((z * sy + y) * sx + x) * nv * nf
           IN  \E v \in 0 .. nv - 1, d \in 0 .. nf - 1 :
                 r.vals[base + v * nf + d + 1] # Expected(e, t, src, v, d) }
  IN  <<r.pos, Cardinality(bad), CHOOSE b \in bad : TRUE>>

Judge(e) ==
  LET t == T(e)
      wrong == { i \in 1 .. Len(e.ranks) : ~RankOK(e, t, e.ranks[i]) }
  IN  /\ IF { e.ranks[i].pos : i \in 1 .. Len(e.ranks) } # Positions(t)
         THEN Reject(e.id, "positions") ELSE TRUE
      /\ IF wrong = {} THEN TRUE
         ELSE IF \E i \in wrong : Len(e.ranks[i].vals) = 0 THEN Reject(e.id, "empty")
         ELSE Reject(e.id, BadCells(e, t, e.ranks[CHOOSE i \in wrong : TRUE]))

TraceInit == /\ l = 1 /\ topo = T(Trace[1]) /\ info = <<>> /\ a = <<>> /\ pc = <<>> /\ buf = <<>>
TraceNext == /\ l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1 /\ topo' = T(Trace[l])
             /\ UNCHANGED <<info, a, pc, buf>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, hvars>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
