------------------------------- MODULE Smooth -------------------------------
(* Smooth flows: how a flow whose density, pressure, velocities and magnetic   *)
(* field are linear in position at one instant moves on, up to second order in  *)
(* time, at a point.  Fields are polynomials around the point; a moving          *)
(* quantity is a triple: itself, its first and its second derivative in time.    *)
EXTENDS Polynomial
(* all vectors have three components; unused directions carry no gradients *)
Linear(f0, g) == Trim([e \in {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} |->
                    IF e = <<0, 0, 0>> THEN f0 ELSE IF e[1] = 1 THEN g[1] ELSE IF e[2] = 1 THEN g[2] ELSE g[3]])
V3(f(_)) == TLCEval([d \in 1 .. 3 |-> f(d)])
VPlus(a, b) == V3(LAMBDA d : PPlus(a[d], b[d]))
VMinus(a, b) == V3(LAMBDA d : PMinus(a[d], b[d]))
VTimes(f, a) == V3(LAMBDA d : PTimes(f, a[d]))
VNeg(a) == V3(LAMBDA d : PBy(a[d], -1))
PNeg(f) == PBy(f, -1)
Up(d) == 1 + (d % 3)
Cross(a, b) == V3(LAMBDA d : PMinus(PTimes(a[Up(d)], b[Up(Up(d))]), PTimes(a[Up(Up(d))], b[Up(d)])))
Curl(a) == V3(LAMBDA d : PMinus(PDiff(a[Up(Up(d))], Up(d)), PDiff(a[Up(d)], Up(Up(d)))))
Grad(f) == V3(LAMBDA d : PDiff(f, d))
Div3(a) == PPlus(PDiff(a[1], 1), PPlus(PDiff(a[2], 2), PDiff(a[3], 3)))
Along(u, f) == PPlus(PTimes(u[1], PDiff(f, 1)), PPlus(PTimes(u[2], PDiff(f, 2)), PTimes(u[3], PDiff(f, 3))))
VAlong(u, a) == V3(LAMBDA d : Along(u, a[d]))
(* 1/r up to second order around the point, r linear *)
Inverse(r) ==
  LET w == Recip(Coef(r, <<0, 0, 0>>))
      s == PScale(PMinus(r, Const(Coef(r, <<0, 0, 0>>))), w)
  IN  PScale(PPlus(PMinus(Const(I(1)), s), PTimes(s, s)), w)
(* q: r, p (polynomials), u, b (vectors of polynomials), g (constant acceleration) *)
Force(p, b) == VMinus(Cross(Curl(b), b), Grad(p))
First(q, gamma) ==
  LET w == Inverse(q.r)
      du == Div3(q.u)
  IN  [r |-> PNeg(PPlus(Along(q.u, q.r), PTimes(q.r, du))),
       p |-> PNeg(PPlus(Along(q.u, q.p), PScale(PTimes(q.p, du), gamma))),
       u |-> VPlus(VMinus(VTimes(w, Force(q.p, q.b)), VAlong(q.u, q.u)), q.g),
       b |-> Curl(Cross(q.u, q.b))]
Second(q, f, gamma) ==
  LET w == Inverse(q.r)
      w1 == PNeg(PTimes(PTimes(w, w), f.r))
      du == Div3(q.u)
      du1 == Div3(f.u)
      curr == Curl(q.b)
      force1 == VMinus(VPlus(Cross(Curl(f.b), q.b), Cross(curr, f.b)), Grad(f.p))
  IN  [r |-> PNeg(PPlus(PPlus(Along(f.u, q.r), Along(q.u, f.r)), PPlus(PTimes(f.r, du), PTimes(q.r, du1)))),
       p |-> PNeg(PPlus(PPlus(Along(f.u, q.p), Along(q.u, f.p)), PScale(PPlus(PTimes(f.p, du), PTimes(q.p, du1)), gamma))),
       u |-> VMinus(VPlus(VTimes(w1, Force(q.p, q.b)), VTimes(w, force1)), VPlus(VAlong(f.u, q.u), VAlong(q.u, f.u))),
       b |-> Curl(VPlus(Cross(f.u, q.b), Cross(q.u, f.b)))]
(* moving quantities at the point *)
Here(f) == Coef(f, <<0, 0, 0>>)
MPlus(x, y) == <<Plus(x[1], y[1]), Plus(x[2], y[2]), Plus(x[3], y[3])>>
MTimes(x, y) == <<Times(x[1], y[1]), Plus(Times(x[2], y[1]), Times(x[1], y[2])),
                  Plus(Plus(Times(x[3], y[1]), Times(x[1], y[3])), By(Times(x[2], y[2]), 2))>>
MScale(x, a) == <<Times(x[1], a), Times(x[2], a), Times(x[3], a)>>
MDot(x, y) == MPlus(MTimes(x[1], y[1]), MPlus(MTimes(x[2], y[2]), MTimes(x[3], y[3])))
Motion(q, gamma) ==
  LET f == First(q, gamma)
      s == Second(q, f, gamma)
      mv(x, y, z) == <<Here(x), Here(y), Here(z)>>
  IN  [r |-> mv(q.r, f.r, s.r), p |-> mv(q.p, f.p, s.p),
       u |-> TLCEval([d \in 1 .. 3 |-> mv(q.u[d], f.u[d], s.u[d])]), b |-> TLCEval([d \in 1 .. 3 |-> mv(q.b[d], f.b[d], s.b[d])])]
MMomentum(m, d) == MTimes(m.r, m.u[d])
MEnergy(m, g1) == MPlus(MScale(m.p, g1), MScale(MPlus(MTimes(m.r, MDot(m.u, m.u)), MDot(m.b, m.b)), Half(I(1))))
(* a moving quantity after dt, up to second order *)
Later(x, dt) == Plus(x[1], Times(dt, Plus(x[2], Times(Half(dt), x[3]))))
=============================================================================
