---------------------------- MODULE TraceOperator ----------------------------
(* Flux divergences and steps of real spectral difference cells for polynomial *)
(* flows, value by value, against Operator.tla.  Events: "euler" (divergence of *)
(* the inviscid fluxes), "viscous" (difference between the divergences without  *)
(* and with viscosity), "step" (state after one step of a Runge-Kutta method).  *)
EXTENDS Operator, Nodes, TraceLib
VARIABLE upto
Flow(e) == [r |-> FromList(e.r), p |-> FromList(e.p), u |-> TLCEval([d \in 1 .. e.dim |-> FromList(e.u[d])])]
RECURSIVE Pow(_, _)
Pow(n, k) == IF k = 0 THEN 1 ELSE n * Pow(n, k - 1)
Place(f, n, d) == 1 + (((f - 1) \div Pow(n, d - 1)) % n)
Top(P, dim) == LET S == {Degree(P[v], d) : v \in DOMAIN P, d \in 1 .. dim} IN CHOOSE x \in S : \A y \in S : y <= x
(* coordinates of value f of a cell *)
Where(e, c, f) == [d \in 1 .. 3 |-> IF d > e.dim THEN O ELSE Plus(e.lo[d], Times(e.h[d], Plus(I(c[d]), Node[e.n][Place(f, e.n, d)])))]
RECURSIVE MostIn(_, _)
MostIn(x, i) == IF i > Len(x) THEN O ELSE Max(Mag(x[i]), MostIn(x, i + 1))
Judge(e, P, exact, tol) ==
  LET top == Top(P, e.dim)
      vs == {v \in Vars(e.dim) : exact[v]}
      bad == {k \in DOMAIN e.cells : \E f \in 1 .. Pow(e.n, e.dim) :
                LET x == Where(e, e.cells[k].at, f)
                    w == TLCEval([d \in 1 .. 3 |-> Powers(x[d], top)])
                IN  \E v \in vs : ~Close(e.cells[k].q[v][f], PValue(P[v], w), e.scale[v], tol)}
  IN  IF vs = {} THEN Reject(e.id, "nothing is exact: not a test")
      ELSE IF bad = {} THEN TRUE
      ELSE LET k == CHOOSE x \in bad : TRUE
               v == {u \in vs : \E f \in 1 .. Pow(e.n, e.dim) :
                       LET x == Where(e, e.cells[k].at, f) IN ~Close(e.cells[k].q[u][f], PValue(P[u], TLCEval([d \in 1 .. 3 |-> Powers(x[d], top)])), e.scale[u], tol)}
           IN  Reject(e.id, <<e.ev, e.cells[k].at, v>>)
Ok(e) ==
  IF e.nan THEN Reject(e.id, "not a number")
  ELSE LET q == Flow(e)
           dim == e.dim
           U == Conserved(q, dim, e.g1)
       IN  CASE e.ev = "euler" ->
                  LET fl == Fluxes(q, U, dim) IN Judge(e, Divergence(fl, dim), [v \in Vars(dim) |-> EulerExact(U, fl, dim, e.n, v)], 8)
             [] e.ev = "viscous" ->
                  LET fl == ViscousFluxes(q.u, dim, e.mu) IN Judge(e, Divergence(fl, dim), [v \in Vars(dim) |-> ViscousExact(q, U, fl, dim, e.n, v)], 8)
             [] OTHER ->
                  LET u == [d \in 1 .. dim |-> Coef(q.u[d], <<0, 0, 0>>)]
                      r == Moved(q.r, u, dim, e.dt, e.method)
                      P == Conserved([q EXCEPT !.r = r], dim, e.g1)
                  IN  Judge(e, P, [v \in Vars(dim) |-> (\A w \in Vars(dim) : Fits(U[w], dim, e.n - 1)) /\ \A d \in 1 .. dim : Fits(q.u[d], dim, 0) /\ Fits(q.p, dim, 0)], 9)
TraceInit == upto = 0
TraceNext == upto < Len(Trace) /\ Ok(Trace[upto + 1]) = TRUE /\ upto' = upto + 1
TraceSpec == TraceInit /\ [][TraceNext]_upto
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
