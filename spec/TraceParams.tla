----------------------------- MODULE TraceParams ----------------------------
(* Settings resolved by the real program, runs of the real executables, and    *)
(* cells updated by the solver a document selects, judged against Params.tla   *)
EXTENDS Params, Riemann, TraceLib
VARIABLE upto
Expect(e) == Whole(e.doc)
ParamsOk(e) ==
  LET w == Expect(e)
      r == Real(e.doc, e.m)
      wrong == {f \in DOMAIN w : w[f] # e.p[f]}
      off == {f \in DOMAIN r : ~Close(r[f], e.p.real[f], Plus(Mag(r[f]), Tenth(I(1), 12)), 7)}
  IN  IF wrong # {} THEN Reject(e.id, <<"parameters", wrong>>)
      ELSE IF off # {} THEN Reject(e.id, <<"parameters", off>>)
      ELSE TRUE
(* a run that can not start fails and leaves nothing behind *)
RunOk(e) ==
  LET can == e.ini /\ Fits(e, e.m, e.np)
      s == SchemeOf(e.solver)
      n == [a \in 1 .. 3 |-> e.n[a] * (IF a = 3 /\ s.dim = 2 THEN 1 ELSE e.m[a])]
  IN  IF ~can THEN IF e.ok THEN Reject(e.id, <<"success without a run">>)
                   ELSE IF e.files # 0 THEN Reject(e.id, <<"output without a run", e.files>>) ELSE TRUE
      ELSE IF ~e.ok THEN Reject(e.id, <<"failed run">>)
      ELSE IF e.fields # Fields(s) THEN Reject(e.id, <<"fields", e.fields>>)
      ELSE IF e.kind # Container(s) THEN Reject(e.id, <<"kind of grid", e.kind>>)
      ELSE IF e.values # Values(s, n[1], n[2], n[3]) THEN Reject(e.id, <<"values per field", e.values>>)
      ELSE TRUE
(* two blocks of uniform states, one step without slopes: cells on both sides of an interface *)
Q(x) == [d |-> x[1], p |-> x[2], u |-> x[3], v |-> x[4], w |-> x[5], a |-> x[6], b |-> x[7], c |-> x[8]]
Facing(q, axis) == CASE axis = 1 -> q
                     [] axis = 2 -> [q EXCEPT !.u = q.v, !.v = q.u, !.a = q.b, !.b = q.a]
                     [] axis = 3 -> [q EXCEPT !.u = q.w, !.w = q.u, !.a = q.c, !.c = q.a]
Order(axis) == CASE axis = 1 -> <<1, 2, 3, 4, 5>> [] axis = 2 -> <<1, 2, 4, 3, 5>> [] axis = 3 -> <<1, 2, 5, 4, 3>>
(* new densities of the cells left and right of the interface l | r *)
After(name, l, r, g, k) ==
  LET f == Flux(name, l, r, g)
      fl == Phys(l, g)  fr == Phys(r, g)
      ul == Cons(l, g)  ur == Cons(r, g)
  IN  TLCEval([c \in 1 .. 5 |-> <<Minus(ul[c], Times(k, Minus(f[c], fl[c]))), Minus(ur[c], Times(k, Minus(fr[c], f[c])))>>])
CellOk(e) ==
  LET s == SchemeOf(e.solver)
      name == RiemannOf(e, s.mhd)
      l == Facing(Q(e.l), e.axis)  r == Facing(Q(e.r), e.axis)
      sc == Scales(l, r, e.g)
      scale(c) == IF c = 1 THEN Max(l.d, r.d) ELSE IF c = 2 THEN sc[3] ELSE Max(Root(Times(sc[3], Max(l.d, r.d))), sc[1])
      Bad(new, lr) == LET a == After(name, lr[1], lr[2], e.g, e.k)
                      IN  {c \in 1 .. 5 : \E x \in {1, 2} : ~Close(a[c][x], new[x][Order(e.axis)[c]], scale(c), e.tol)}
      b1 == Bad(e.lr, <<l, r>>)
      b2 == Bad(e.rl, <<r, l>>)
  IN  IF b1 \cup b2 = {} THEN TRUE ELSE Reject(e.id, <<name, "update of density", b1 \cup b2>>)
Ok(e) == IF e.nan THEN Reject(e.id, <<"not a number">>)
         ELSE CASE e.t = "params" -> ParamsOk(e) [] e.t = "run" -> RunOk(e) [] e.t = "cell" -> CellOk(e)
TraceInit == upto = 0
TraceNext == upto < Len(Trace) /\ Ok(Trace[upto + 1]) /\ upto' = upto + 1
TraceSpec == TraceInit /\ [][TraceNext]_upto
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
