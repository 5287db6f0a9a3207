--------------------------- MODULE TraceTopology ---------------------------
(* validates the set-up recorded on every process of the real code          *)
EXTENDS Topology, TraceLib
VARIABLE l

T(e) == [dim |-> e.dim, m |-> e.m, n |-> e.n, bc |-> e.bc]
PosOf(e, r) == e.ranks[r].pos

Why(e) ==
  LET t == T(e)  R == 1 .. Len(e.ranks)
      pos(i) == e.ranks[i].pos
      byrank == [k \in { e.ranks[i].rank : i \in R } |-> pos(CHOOSE i \in R : e.ranks[i].rank = k)]
  IN  { w \in {"tiling", "neighbour", "condition", "spacing", "sizes", "unusedAxis"} :
        CASE w = "tiling" -> ~( Len(e.ranks) = NProcs(t) /\ Cardinality(DOMAIN byrank) = NProcs(t)
                               /\ { byrank[k] : k \in DOMAIN byrank } = Positions(t) )
          [] w = "neighbour" -> ~ \A i \in R : \A f \in Faces(t) :
                 LET q == e.ranks[i].nrank[f] IN q \in DOMAIN byrank /\ byrank[q] = Beyond(t, pos(i), f)
          [] w = "condition" -> ~ \A i \in R : \A f \in Faces(t) : e.ranks[i].nbc[f] = FaceBC(t, pos(i), f)
          [] w = "spacing" -> ~ \A i \in R : \A a \in Axes(t) :
                 \* length in 1e-6 units; spacing in 1e-9 units
                 LET exact == ((e.len[a] * 100) \div (M(t, a) * t.n[a])) * 10
                 IN  e.ranks[i].d[a] - exact \in -11 .. 11
          [] w = "sizes" -> ~ \A i \in R : \A a \in Axes(t) :
                 e.ranks[i].size[a] = t.n[a] + 2 * e.ranks[i].gw /\ e.ranks[i].n[a] = t.n[a]
                 /\ e.ranks[i].lo[a] = 0 /\ e.ranks[i].hi[a] = t.n[a] + 2 * e.ranks[i].gw - 1
                 /\ e.ranks[i].gw = e.gw
          [] OTHER -> FALSE }

\* a launch of the executable: it computes iff process grid and process count match
WhyLaunch(e) ==
  LET prod == e.m[1] * e.m[2] * (IF e.dim = 3 THEN e.m[3] ELSE 1)
      ok == prod = e.np /\ \A a \in 1 .. e.dim : e.m[a] >= 1
  IN { w \in {"refusedValid", "acceptedInvalid", "outputOfRefused"} :
       CASE w = "refusedValid" -> ok /\ ~(e.exit = 0 /\ e.finals = 1 /\ e.files > 0)
         [] w = "acceptedInvalid" -> ~ok /\ (e.exit = 0 \/ e.finals > 0)
         [] w = "outputOfRefused" -> ~ok /\ e.files > 0 }

Judge(e) == LET w == IF e.ev = "topo" THEN Why(e) ELSE WhyLaunch(e)
            IN IF w = {} THEN TRUE ELSE Reject(e.id, w)

TraceInit == l = 1 /\ topo = T(Trace[1]) /\ info = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ Judge(Trace[l])
             /\ l' = l + 1
             /\ topo' = T(Trace[l]) /\ UNCHANGED info
TraceSpec == TraceInit /\ [][TraceNext]_<<l, topo, info>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
