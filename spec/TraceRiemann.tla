--------------------------- MODULE TraceRiemann ----------------------------
(* Fluxes and edge fields computed by the real solvers, one per event, judged *)
(* against Riemann.tla                                                        *)
EXTENDS Riemann, TraceLib
VARIABLE upto
Q(x) == [d |-> x[1], p |-> x[2], u |-> x[3], v |-> x[4], w |-> x[5], a |-> x[6], b |-> x[7], c |-> x[8]]
FluxOk(e) ==
  LET l == Q(e.l)   r == Q(e.r)
      j == Join(l, r)
      x == Flux(e.s, l, r, e.g)
      sc == Scales(j[1], j[2], e.g)
      bad == {k \in 1 .. Len(e.f) : ~Close(x[k], e.f[k], sc[ScaleOf(k)], e.tol)}
  IN  IF bad = {} THEN TRUE ELSE Reject(e.id, <<e.s, "flux component", CHOOSE k \in bad : \A m \in bad : k <= m>>)
EmfOk(e) ==
  LET q == Edge(Q(e.q[1]), Q(e.q[2]), Q(e.q[3]), Q(e.q[4]), e.dir)
  IN  IF Close(EMF(q, e.g), e.f[1], EmfScale(q, e.g), e.tol) THEN TRUE ELSE Reject(e.id, <<"emf", e.dir>>)
Ok(e) == IF e.nan THEN Reject(e.id, <<"not a number", e.s>>)
         ELSE IF e.t = "flux" THEN FluxOk(e) ELSE EmfOk(e)
TraceInit == upto = 0
TraceNext == upto < Len(Trace) /\ Ok(Trace[upto + 1]) /\ upto' = upto + 1
TraceSpec == TraceInit /\ [][TraceNext]_upto
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
