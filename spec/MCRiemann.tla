----------------------------- MODULE MCRiemann -----------------------------
(* Laws of the interface fluxes of Riemann.tla, checked on a grid of states.  *)
EXTENDS Riemann, FiniteSets
CONSTANTS NL, NR            \* left states and partners per left state
VARIABLES l, r, kind, ready
(* a walk through a grid of states: every component takes each of its values *)
Pick(seq, n) == seq[(n % Len(seq)) + 1]
Q(h) == Over(I(h), 4)
St(n, mhd) ==
  LET f(x) == IF mhd THEN Q(x) ELSE O
  IN  [d |-> Q(Pick(<<4, 1, 9, 16, 2>>, n)), p |-> Q(Pick(<<4, 8, 1>>, n + n \div 5)),
       u |-> Q(Pick(<<0, 1, -1, 14, -14, 2, -3>>, n)), v |-> Q(Pick(<<0, 3, -2>>, n \div 2)), w |-> Q(Pick(<<1, 0, -5, 2>>, n \div 3)),
       a |-> f(Pick(<<3, 0, -4, 4>>, n \div 4)), b |-> f(Pick(<<0, 4, -3>>, n \div 3)), c |-> f(Pick(<<2, 0, 3, -4, 0>>, n))]
G == [n |-> 3, d |-> 2]
Names(k) == IF k = "hydro" THEN {"llf", "hll", "hllc"} ELSE Mhd
Tol == 15
CloseF(x, y, sc) == \A k \in Idx : Close(x[k], y[k], sc[ScaleOf(k)], Tol)
Fl(s, x, y) == Flux(s, x, y, G)
SC(x, y) == Scales(Join(x, y)[1], Join(x, y)[2], G)
(* reflection at the interface *)
Mirror(q) == [q EXCEPT !.u = Uminus(q.u), !.a = Uminus(q.a)]
MirrorF(f) == <<Uminus(f[1]), Uminus(f[2]), f[3], Uminus(f[4]), Uminus(f[5]), f[6], Uminus(f[7]), Uminus(f[8])>>
(* mirrored field is a pseudovector up to an overall sign, which no solver sees *)
Swap(q) == [q EXCEPT !.v = q.w, !.w = q.v, !.b = q.c, !.c = q.b]
SwapF(f) == <<f[1], f[2], f[3], f[5], f[4], f[6], f[8], f[7]>>
Shift(q) == [q EXCEPT !.v = Plus(q.v, I(2))]
ShiftF(f, a) == <<f[1], Plus(Plus(f[2], By(f[4], 2)), By(f[1], 2)), f[3], Plus(f[4], By(f[1], 2)), f[5], f[6], Minus(f[7], By(a, 2)), f[8]>>
Flip(q) == [q EXCEPT !.a = Uminus(q.a), !.b = Uminus(q.b), !.c = Uminus(q.c)]
FlipF(f) == [k \in Idx |-> IF k > 5 THEN Uminus(f[k]) ELSE f[k]]
AllRight(x, y) == Gt(SlowEdge(x, y, Max(Fast(x, G), Fast(y, G))), O)
Pair == ready /\ kind \in {"hydro", "mhd"}
J == Join(l, r)
Big == LET s == SC(Shift(l), Shift(r)) IN [k \in 1 .. 4 |-> By(s[k], 4)]
Consistent == Pair => \A s \in Names(kind) : CloseF(Fl(s, l, l), Phys(l, G), SC(l, l))
Laws ==
  Pair =>
  \A s \in Names(kind) :
    LET f == Fl(s, l, r)
        sc == SC(l, r)
    IN  /\ CloseF(Fl(s, Mirror(r), Mirror(l)), MirrorF(f), sc)
        /\ CloseF(Fl(s, Swap(l), Swap(r)), SwapF(f), sc)
        /\ CloseF(Fl(s, Flip(l), Flip(r)), FlipF(f), sc)
        /\ CloseF(Fl(s, Shift(l), Shift(r)), ShiftF(f, J[1].a), Big)
        /\ f[6] = O
        /\ (s # "llf" /\ AllRight(J[1], J[2])) => CloseF(f, Phys(J[1], G), sc)
        /\ (kind = "hydro" /\ s = "hllc") => CloseF(f, HLLD(l, r, G), sc)
        /\ s = "hllc" => \/ CloseF([f EXCEPT ![4] = Times(f[1], IF Pos(f[1]) THEN l.v ELSE r.v)], f, sc)
(* the sharp solvers keep contacts exactly; the two-shock solution agrees *)
Contact(x, y) == [y EXCEPT !.u = x.u, !.p = x.p, !.v = x.v, !.w = x.w, !.a = x.a, !.b = x.b, !.c = x.c]
Contacts ==
  Pair =>
  LET y == Contact(l, r)
      want == IF Neg(l.u) THEN Phys(y, G) ELSE Phys(l, G)
  IN  /\ kind = "mhd" => CloseF(Fl("hlld", l, y), want, SC(l, y))
      /\ kind = "hydro" => CloseF(Fl("hllc", l, y), want, SC(l, y)) /\ CloseF(Fl("approx", l, y), want, SC(l, y))
(* a rotation of the transverse field by the Alfven wave moving left or right *)
Rotated(x, s) ==           \* the state on the other side: field (b, c) -> (-c, b)
  LET k == Div(I(IF Neg(x.a) THEN 0 - s ELSE s), Root(x.d))
      nb == Uminus(x.c)   nc == x.b
  IN  [x EXCEPT !.b = nb, !.c = nc, !.v = Plus(x.v, Times(k, Minus(nb, x.b))), !.w = Plus(x.w, Times(k, Minus(nc, x.c)))]
Rotations ==
  (ready /\ kind = "mhd" /\ l.a # O) =>
  LET va == Div(Mag(l.a), Root(l.d))
      x == Rotated(l, 1)                       \* across the wave moving with u - va
      y == Rotated(l, -1)                      \* across the wave moving with u + va
  IN  /\ CloseF(Fl("hlld", l, x), IF Pos(Minus(l.u, va)) THEN Phys(l, G) ELSE Phys(x, G), SC(l, x))
      /\ CloseF(Fl("hlld", l, y), IF Pos(Plus(l.u, va)) THEN Phys(l, G) ELSE Phys(y, G), SC(l, y))
(* electric field at an edge *)
Quad == [ll |-> l, lr |-> r, rl |-> St(7, TRUE), rr |-> [l EXCEPT !.p = r.p, !.d = r.d]]
Matched(q) == Edge(q.ll, q.rl, q.lr, q.rr, "z")
Small(q) == LET H4(x) == [x EXCEPT !.u = Over(x.u, 4)] IN On(H4, q)
Transposed(q) == [ll |-> Turn(q.ll), lr |-> Turn(q.rl), rl |-> Turn(q.lr), rr |-> Turn(q.rr)]
XMirror(q) == [ll |-> Mirror(q.rl), lr |-> Mirror(q.rr), rl |-> Mirror(q.ll), rr |-> Mirror(q.lr)]
Edges ==
  (ready /\ kind = "edge") =>
  LET q == Small(Matched(Quad))
      E == EMF(q, G)
      sc == EmfScale(q, G)
      same == [ll |-> l, lr |-> l, rl |-> l, rr |-> l]
  IN  /\ Close(EMF(same, G), Minus(Times(l.u, l.b), Times(l.v, l.a)), EmfScale(same, G), Tol)
      /\ Close(EMF(Transposed(q), G), Uminus(E), sc, Tol)
      /\ Close(EMF(XMirror(q), G), Uminus(E), sc, Tol)
Init == \E n \in 1 .. NL : \E k \in {"hydro", "mhd", "edge"} : l = St(n, k # "hydro") /\ r = l /\ kind = k /\ ready = FALSE
Next == /\ ~ready /\ ready' = TRUE
        /\ \E n \in 1 .. (IF kind = "edge" THEN 1 ELSE NR) : r' = St(3 + 11 * n, kind # "hydro")
        /\ UNCHANGED <<l, kind>>
Spec == Init /\ [][Next]_<<l, r, kind, ready>>
=============================================================================
