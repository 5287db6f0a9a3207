----------------------------- MODULE MCOperator -----------------------------
(* Laws of the polynomial flows of Operator.tla, and of the methods of time:   *)
(* explored over products of monomials.                                        *)
EXTENDS Operator, Nodes
CONSTANTS MaxDeg, Rich
VARIABLE st
Same(a, b, d) == Close(a, b, Plus(I(1), Plus(Mag(a), Mag(b))), d)
Monos == {e \in (0 .. MaxDeg) \X (0 .. MaxDeg) \X (0 .. MaxDeg) : e[1] + e[2] + e[3] <= MaxDeg}
Mono(e, a) == [x \in {e} |-> a]
One == Const(I(1))
Pts == << <<Dec(3, 1), Dec(-2, 1), Dec(7, 1)>>, <<Dec(-11, 1), Dec(4, 1), Dec(25, 2)>> >>
Pw(x) == TLCEval([d \in 1 .. 3 |-> Powers(x[d], 3 * MaxDeg + 3)])
AtPt(f, x) == PValue(f, Pw(x))
Zero3(f) == \A i \in DOMAIN Pts : Lt(Mag(AtPt(f, Pts[i])), Dec(1, 12))
SameP(f, g) == Zero3(PMinus(f, g))
Init == st = [ph |-> "start"]
Flow == st.ph = "start" /\ \E dim \in 2 .. 3 : \E a \in Monos : \E b \in (IF Rich THEN Monos ELSE {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>}) : \E i \in 1 .. dim : \E j \in 1 .. dim :
  (dim = 2 => a[3] = 0 /\ b[3] = 0) /\
  LET u == TLCEval([d \in 1 .. dim |-> PPlus(IF d = i THEN Mono(a, Dec(5, 1)) ELSE PolyZero, IF d = j THEN Mono(b, Dec(-3, 1)) ELSE Const(Dec(d, 1)))])
      r == PPlus(Const(I(2)), Mono(b, Dec(1, 1)))
      p == PPlus(Const(I(3)), Mono(a, Dec(2, 1)))
  IN  st' = [ph |-> "flow", dim |-> dim, q |-> [r |-> r, p |-> p, u |-> u], mu |-> Dec(4, 1)]
Time == st.ph = "start" /\ \E m \in Methods : st' = [ph |-> "time", m |-> m]
Next == Flow \/ Time
Spec == Init /\ [][Next]_st
G1 == Dec(25, 1)
(* products, derivatives and values belong together *)
Calculus == st.ph = "flow" =>
  LET u == st.q.u   r == st.q.r IN
  \A d \in 1 .. st.dim : \A c \in 1 .. st.dim :
    /\ SameP(PDiff(PTimes(u[c], r), d), PPlus(PTimes(PDiff(u[c], d), r), PTimes(u[c], PDiff(r, d))))
    /\ SameP(PDiff(PDiff(u[c], d), 1), PDiff(PDiff(u[c], 1), d))
    /\ \A i \in DOMAIN Pts : Same(AtPt(PTimes(u[c], r), Pts[i]), Times(AtPt(u[c], Pts[i]), AtPt(r, Pts[i])), 14)
(* the flux divergence is that of the equations in primitive form *)
Euler == st.ph = "flow" =>
  LET q == st.q   dim == st.dim
      U == Conserved(q, dim, G1)
      D == Divergence(Fluxes(q, U, dim), dim)
      along(f) == PSum([d \in 1 .. dim |-> PTimes(q.u[d], PDiff(f, d))], 1)
      du == DivU(q.u, dim)
  IN  /\ SameP(D[1], PPlus(along(q.r), PTimes(q.r, du)))
      /\ \A d \in 1 .. dim : SameP(PMinus(D[2 + d], PTimes(q.u[d], D[1])), PPlus(PTimes(q.r, along(q.u[d])), PDiff(q.p, d)))
(* stress: symmetric, free of trace, unchanged by uniform motion, zero for rigid rotation, dissipative *)
Rotation(dim) == [d \in 1 .. dim |-> IF d = 1 THEN PScale(Coordinate(2), I(-1)) ELSE IF d = 2 THEN Coordinate(1) ELSE PolyZero]
Viscosity == st.ph = "flow" =>
  LET q == st.q   dim == st.dim
      T == Stresses(q.u, dim, st.mu)
      S == TLCEval([d \in 1 .. dim |-> PPlus(q.u[d], PPlus(Const(Dec(7, 1)), Rotation(dim)[d]))])
      T2 == Stresses(S, dim, st.mu)
      diss == PSum([k \in 1 .. dim * dim |-> LET a == 1 + ((k - 1) \div dim)   b == 1 + ((k - 1) % dim) IN PTimes(T[a][b], PDiff(q.u[b], a))], 1)
      Fl == ViscousFluxes(q.u, dim, st.mu)
      D == Divergence(Fl, dim)
      power == PSum([b \in 1 .. dim |-> PTimes(q.u[b], D[2 + b])], 1)
  IN  /\ \A a \in 1 .. dim : \A b \in 1 .. dim : SameP(T[a][b], T[b][a]) /\ SameP(T[a][b], T2[a][b])
      /\ Zero3(PSum([a \in 1 .. dim |-> T[a][a]], 1))
      /\ \A i \in DOMAIN Pts : Le(Dec(-1, 12), AtPt(diss, Pts[i]))
      /\ D[1] = PolyZero
      /\ SameP(D[2], PPlus(power, diss))                 \* work and heat
(* the methods: consistent, of their order, and convex combinations of forward steps *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE WeightsOf(_, _)
WeightsOf(s, i) == IF i > Len(s) THEN O ELSE Plus(s[i][2], WeightsOf(s, i + 1))
TimeMethods == st.ph = "time" =>
  LET G == Growth(st.m)   T == Tableau[st.m] IN
  /\ \A k \in 0 .. Order[st.m] : Same(G[k + 1], Over(I(1), Fact(k)), 13)
  /\ Len(G) = Order[st.m] + 1 \/ ~Same(G[Order[st.m] + 2], Over(I(1), Fact(Order[st.m] + 1)), 4)
  /\ \A i \in DOMAIN T : Same(WeightsOf(T[i].from, 1), I(1), 13) /\ \A j \in DOMAIN T[i].from : Pos(T[i].from[j][2])
  /\ \A i \in DOMAIN T : \A j \in DOMAIN T[i].incr : Pos(T[i].incr[j][2]) /\ \E l \in DOMAIN T[i].from : T[i].from[l][1] = T[i].incr[j][1]
(* --------------- cells with n values: interpolation to the flux points and   *)
(* differentiation there are exact up to the stated degrees                     *)
TimesLinear(p, r) == TLCEval([i \in 1 .. Len(p) + 1 |-> Minus(IF i > 1 THEN p[i - 1] ELSE O, IF i <= Len(p) THEN Times(p[i], r) ELSE O)])
RECURSIVE BasisIn(_, _, _, _)
BasisIn(x, k, m, p) ==
  IF m > Len(x) THEN p
  ELSE BasisIn(x, k, m + 1, IF m = k THEN p ELSE LET q == TimesLinear(p, x[m])   d == Recip(Minus(x[k], x[m])) IN TLCEval([i \in 1 .. Len(q) |-> Times(q[i], d)]))
RECURSIVE SlopeIn(_, _, _)
SlopeIn(p, x, i) == IF i > Len(p) THEN O ELSE Plus(By(Times(p[i], IF i = 2 THEN I(1) ELSE Powers(x, i)[i - 1]), i - 1), SlopeIn(p, x, i + 1))
RECURSIVE DotN(_, _, _)
DotN(a, b, i) == IF i > Len(a) THEN O ELSE Plus(Times(a[i], b[i]), DotN(a, b, i + 1))
Exactness == \A n \in 1 .. 6 :
  LET Bas == TLCEval([k \in 1 .. n + 1 |-> BasisIn(FluxNode[n], k, 1, <<I(1)>>)])
      Dm == TLCEval([j \in 1 .. n |-> TLCEval([k \in 1 .. n + 1 |-> SlopeIn(Bas[k], Node[n][j], 2)])])
      X(pts, e) == TLCEval([k \in 1 .. Len(pts) |-> Powers(pts[k], 8)[e + 1]])
  IN  /\ \A e \in 0 .. n - 1 : \A j \in 1 .. n + 1 : Same(DotN(ToFlux[n][j], X(Node[n], e), 1), X(FluxNode[n], e)[j], 15)
      /\ \A e \in 0 .. n : \A j \in 1 .. n : Same(DotN(Dm[j], X(FluxNode[n], e), 1), IF e = 0 THEN O ELSE By(X(Node[n], e - 1)[j], e), 14)
ASSUME Exactness
=============================================================================
