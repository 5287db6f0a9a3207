------------------------------ MODULE MCSmooth ------------------------------
(* Laws of Smooth.tla: both derivatives in time belong to the conservation     *)
(* laws, the field stays without divergence, uniform motion changes nothing but  *)
(* carries the flow along, and no axis is special.                                *)
EXTENDS Smooth
CONSTANTS Pairs
VARIABLE st
Names == {"r", "p", "u", "b"}
Slope == [q : Names, c : 1 .. 3, d : 1 .. 3]
Singles == {s \in Slope : (s.q \in {"r", "p"} => s.c = 1)}
Amount == Dec(3, 1)
None == [q |-> "none", c |-> 1, d |-> 1]
(* gradient of component c of quantity q along d; the field gets a counterpart that keeps it free of divergence *)
Gr(S, q, c, d) ==
  LET own(s) == IF s.q = q /\ s.c = c /\ s.d = d THEN Amount ELSE O
      back(s) == IF q = "b" /\ s.q = "b" /\ s.c = s.d /\ c = d /\ c = Up(s.c) THEN Uminus(Amount) ELSE O
  IN  Plus(Plus(own(S[1]), back(S[1])), Plus(Half(own(S[2])), Half(back(S[2]))))
GrV(S, q, c) == [d \in 1 .. 3 |-> Gr(S, q, c, d)]
U0 == <<Dec(4, 1), Dec(-7, 1), Dec(2, 1)>>
B0 == <<Dec(5, 1), Dec(3, 1), Dec(-8, 1)>>
A0 == <<Dec(1, 1), Dec(-2, 1), Dec(3, 1)>>
FlowOf(S, u0, sh) ==
  LET c(k) == 1 + ((k + sh - 1) % 3) IN      \* axes renamed: component k of the new flow is component c(k)
  [r |-> Linear(Dec(15, 1), [d \in 1 .. 3 |-> Gr(S, "r", 1, c(d))]), p |-> Linear(Dec(12, 1), [d \in 1 .. 3 |-> Gr(S, "p", 1, c(d))]),
   u |-> TLCEval([k \in 1 .. 3 |-> Linear(u0[c(k)], [d \in 1 .. 3 |-> Gr(S, "u", c(k), c(d))])]),
   b |-> TLCEval([k \in 1 .. 3 |-> Linear(B0[c(k)], [d \in 1 .. 3 |-> Gr(S, "b", c(k), c(d))])]),
   g |-> TLCEval([k \in 1 .. 3 |-> Const(A0[c(k)])])]
Gamma == Dec(14, 1)
G1 == Dec(25, 1)
Init == st = <<>>
Next == st = <<>> /\ \E a \in Singles : \E b \in (IF Pairs THEN Singles ELSE {None, [q |-> "u", c |-> 1, d |-> 1], [q |-> "u", c |-> 2, d |-> 3], [q |-> "b", c |-> 3, d |-> 2], [q |-> "r", c |-> 1, d |-> 1]}) :
          st' = <<a, b>>
Spec == Init /\ [][Next]_st
Same(a, b) == Close(a, b, Plus(I(1), Plus(Mag(a), Mag(b))), 14)
(* polynomials that move: themselves and their first derivative in time *)
XTimes(x, y) == <<PTimes(x[1], y[1]), PPlus(PTimes(x[2], y[1]), PTimes(x[1], y[2]))>>
XPlus(x, y) == <<PPlus(x[1], y[1]), PPlus(x[2], y[2])>>
XMinus(x, y) == <<PMinus(x[1], y[1]), PMinus(x[2], y[2])>>
XScale(x, a) == <<PScale(x[1], a), PScale(x[2], a)>>
XDot(x, y) == XPlus(XTimes(x[1], y[1]), XPlus(XTimes(x[2], y[2]), XTimes(x[3], y[3])))
XDiv(x) == <<Div3(<<x[1][1], x[2][1], x[3][1]>>), Div3(<<x[1][2], x[2][2], x[3][2]>>)>>
Conservation == st # <<>> =>
  LET q == FlowOf(st, U0, 0)
      f == First(q, Gamma)
      m == Motion(q, Gamma)
      r == <<q.r, f.r>>   p == <<q.p, f.p>>
      u == TLCEval([d \in 1 .. 3 |-> <<q.u[d], f.u[d]>>])
      b == TLCEval([d \in 1 .. 3 |-> <<q.b[d], f.b[d]>>])
      g == TLCEval([d \in 1 .. 3 |-> <<q.g[d], PolyZero>>])
      b2 == XScale(XDot(b, b), Half(I(1)))
      pt == XPlus(p, b2)
      ub == XDot(u, b)
      e == XPlus(XPlus(XScale(p, G1), b2), XScale(XTimes(r, XDot(u, u)), Half(I(1))))
      me == MEnergy(m, G1)
      both(x, rate) == Same(x[2], Here(rate[1])) /\ Same(x[3], Here(rate[2]))
      minus(x) == <<PNeg(x[1]), PNeg(x[2])>>
  IN  /\ both(m.r, minus(XDiv(TLCEval([d \in 1 .. 3 |-> XTimes(r, u[d])]))))
      /\ both(me, XMinus(XTimes(r, XDot(u, g)), XDiv(TLCEval([d \in 1 .. 3 |-> XMinus(XTimes(XPlus(e, pt), u[d]), XTimes(ub, b[d]))]))))
      /\ \A k \in 1 .. 3 :
           both(MMomentum(m, k), XMinus(XTimes(r, g[k]),
                XDiv(TLCEval([d \in 1 .. 3 |-> LET t == XMinus(XTimes(XTimes(r, u[d]), u[k]), XTimes(b[d], b[k])) IN IF d = k THEN XPlus(t, pt) ELSE t]))))
      /\ \A k \in 1 .. 3 :
           both(m.b[k], minus(XDiv(TLCEval([d \in 1 .. 3 |-> XMinus(XTimes(u[d], b[k]), XTimes(u[k], b[d]))]))))
Solenoidal == st # <<>> =>
  LET q == FlowOf(st, U0, 0)   f == First(q, Gamma)   s == Second(q, f, Gamma)
  IN  Same(Here(Div3(q.b)), O) /\ Same(Here(Div3(f.b)), O) /\ Same(Here(Div3(s.b)), O)
(* with a uniform motion v added: d/dt + v . grad takes the place of d/dt *)
V0 == <<Dec(6, 1), Dec(11, 1), Dec(-9, 1)>>
Galilei == st # <<>> =>
  LET q == FlowOf(st, U0, 0)   f == First(q, Gamma)   s == Second(q, f, Gamma)
      o == FlowOf(st, <<Plus(U0[1], V0[1]), Plus(U0[2], V0[2]), Plus(U0[3], V0[3])>>, 0)
      of == First(o, Gamma)   os == Second(o, of, Gamma)
      vv == TLCEval([d \in 1 .. 3 |-> Const(V0[d])])
  IN  (* new second derivative plus twice v.grad of the new first plus v.grad v.grad (zero: linear) is the old one *)
      /\ Same(Here(PPlus(of.r, Along(vv, o.r))), Here(f.r))
      /\ Same(Here(PPlus(os.r, PBy(Along(vv, of.r), 2))), Here(s.r))
      /\ Same(Here(PPlus(os.p, PBy(Along(vv, of.p), 2))), Here(s.p))
      /\ \A d \in 1 .. 3 : Same(Here(PPlus(of.u[d], Along(vv, o.u[d]))), Here(f.u[d]))
                         /\ Same(Here(PPlus(os.u[d], PBy(Along(vv, of.u[d]), 2))), Here(s.u[d]))
                         /\ Same(Here(PPlus(os.b[d], PBy(Along(vv, of.b[d]), 2))), Here(s.b[d]))
Axes == st # <<>> =>
  \A sh \in 1 .. 2 :
    LET m == Motion(FlowOf(st, U0, 0), Gamma)
        n == Motion(FlowOf(st, U0, sh), Gamma)
        c(k) == 1 + ((k + sh - 1) % 3)
    IN  \A t \in 1 .. 3 : /\ Same(m.r[t], n.r[t]) /\ Same(m.p[t], n.p[t])
                          /\ \A k \in 1 .. 3 : Same(n.u[k][t], m.u[c(k)][t]) /\ Same(n.b[k][t], m.b[c(k)][t])
=============================================================================
