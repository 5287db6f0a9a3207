----------------------------- MODULE TraceCfl -----------------------------
(* Steps used by the real solvers.  "exact": ranks[p] lists the palette      *)
(* entries (Cfl.tla) present in the interior of process p.  "dyn": measured  *)
(* speeds of every interior cell of every process, per direction, over the   *)
(* cell size, scaled; inv is cfl / dt in the same unit (-1: shortened step). *)
EXTENDS TraceLib, FiniteSets
VARIABLE l
L == INSTANCE Limbs
C == INSTANCE Cfl
One == <<0, 0, 0, 1, 0, 0, 0>>          \* 1 in units of 10^-15, seven digits
Wide(a) == <<0>> \o a
Palette(e) == IF e.kind = "mhd" THEN C!Mhd(e.ax) ELSE C!Hydro
CellWeight(e, c) == IF e.kind = "grav" THEN C!WeightG(Palette(e)[c[1]], c[2], e.dim, e.invh)
                    ELSE C!Weight(Palette(e)[c], e.kind = "mhd", e.dim, e.inv, e.N)
Unit(e) == IF e.kind = "grav" THEN 4 * C!U ELSE C!U
AllCells(e) == UNION { { e.ranks[p][k] : k \in 1 .. Len(e.ranks[p]) } : p \in 1 .. Len(e.ranks) }
Exact(e) ==
  LET cells == AllCells(e)
      W == C!Max({ CellWeight(e, c) : c \in cells })
      want == L!Scale(L!Scale(One, e.cn), Unit(e))
      tol == L!Add(L!Small(7, W * e.cd), L!Small(7, e.cn * Unit(e) * 2000))
      ok(dt) == LET have == L!Scale(L!Scale(Wide(dt), W), e.cd)
                    pow2 == L!Scale(Wide(dt), 2 ^ (e.N + 1))
                    lands == L!NearL(L!Add(Wide(dt), e.t), e.tend, L!Small(7, 4))
                IN  IF e.resc = 1 THEN L!NearL(pow2, One, L!Small(7, 5000))
                    ELSE \/ L!NearL(have, want, tol) /\ L!Leq(L!Add(Wide(dt), e.t), L!Add(e.tend, L!Small(7, 4)))
                         \/ lands /\ L!Leq(have, L!Add(want, tol))
      bad == { p \in 1 .. Len(e.dts) : ~ok(e.dts[p]) }
  IN  CASE e.kind = "grav" /\ \E c \in cells : ~C!IsGrav(Palette(e)[c[1]], c[2], c[3], e.dim, e.cn, e.cd, e.invh) -> <<"case is not exact">>
        [] e.resc = 1 /\ ~(W * e.cd = 8 * e.cn * Unit(e)) -> <<"case is not a power of two">>
        [] bad # {} -> <<"step", e.dts[CHOOSE p \in bad : TRUE], "limit", e.cn * Unit(e), "over", W * e.cd>>
        [] OTHER -> <<>>
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
RECURSIVE Top(_, _, _)
Top(s, n, m) == IF n = 0 THEN m ELSE Top(s, n - 1, LET w == Sum(s[n], Len(s[n])) IN IF w > m THEN w ELSE m)
Dyn(e) ==
  LET tops == { Top(e.ranks[p], Len(e.ranks[p]), 0) : p \in 1 .. Len(e.ranks) }
      W == C!Max(tops)
      bad == { p \in 1 .. Len(e.inv) : IF e.short[p] = 1 THEN e.inv[p] < W - e.tol ELSE ~Near(e.inv[p], W, e.tol) }
  IN  IF bad = {} THEN <<>> ELSE LET p == CHOOSE p \in bad : TRUE IN <<"step", e.step, "fastest cell", W, "cfl/dt", e.inv[p]>>
Judge(e) == LET w == IF e.ev = "exact" THEN Exact(e) ELSE Dyn(e) IN IF w = <<>> THEN TRUE ELSE Reject(e.id, w)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
