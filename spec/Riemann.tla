------------------------------ MODULE Riemann ------------------------------
(* Interface fluxes of ideal gas dynamics and magnetohydrodynamics.           *)
(* A state is a record of numbers (module Fixed): density d, pressure p,       *)
(* velocity u v w (u across the interface) and field a b c (a across it);      *)
(* the ratio of specific heats is a fraction g.n / g.d.  Fluxes are listed in  *)
(* the order mass, energy, momentum x y z, field x y z.                        *)
EXTENDS Fixed
Ent(x, g) == Over(By(x, g.d), g.n - g.d)
Gam(x, g) == Over(By(x, g.n), g.d)
NoField(q) == q.a = O /\ q.b = O /\ q.c = O
Kin(q) == Half(Times(q.d, Plus(Sq(q.u), Plus(Sq(q.v), Sq(q.w)))))
Mgn(q) == IF NoField(q) THEN O ELSE Half(Plus(Sq(q.a), Plus(Sq(q.b), Sq(q.c))))
Ptot(q) == Plus(q.p, Mgn(q))
Etot(q, g) == Plus(Ent(q.p, g), Plus(Kin(q), Mgn(q)))
VdotB(q) == IF NoField(q) THEN O ELSE Plus(Times(q.u, q.a), Plus(Times(q.v, q.b), Times(q.w, q.c)))
(* conserved densities and the flux of a uniform state *)
Cons(q, g) == <<q.d, Etot(q, g), Times(q.d, q.u), Times(q.d, q.v), Times(q.d, q.w), q.a, q.b, q.c>>
Advect(d, u, v, w, a, b, c, pt, e, vb) ==
  LET m == Times(d, u)
  IN  <<m, Minus(Times(Plus(e, pt), u), Times(a, vb)),
        Plus(Minus(Times(m, u), Sq(a)), pt), Minus(Times(m, v), Times(a, b)), Minus(Times(m, w), Times(a, c)),
        O, Minus(Times(b, u), Times(a, v)), Minus(Times(c, u), Times(a, w))>>
Phys(q, g) == Advect(q.d, q.u, q.v, q.w, q.a, q.b, q.c, Ptot(q), Etot(q, g), VdotB(q))
(* signal speeds: sound, Alfven and fast magnetosonic speed across the interface *)
C2(q, g) == Div(Gam(q.p, g), q.d)
FastOf(c2, b2, a2) ==          \* squares of the sound speed and of the field (all of it, across) over density
  LET h == Half(Plus(b2, c2))
  IN  Root(Plus(h, Root(Max(O, Minus(Sq(h), Times(c2, a2))))))
Fast(q, g) ==
  IF NoField(q) THEN Root(C2(q, g))
  ELSE LET r == Recip(q.d)
       IN  FastOf(Times(Gam(q.p, g), r), Times(Plus(Sq(q.a), Plus(Sq(q.b), Sq(q.c))), r), Times(Sq(q.a), r))
(* the field component across the interface is continuous *)
WithA(q, x) == [q EXCEPT !.a = x]
Join(l, r) == LET x == Half(Plus(l.a, r.a)) IN <<WithA(l, x), WithA(r, x)>>
Idx == 1 .. 8
-----------------------------------------------------------------------------
(* two waves: local Lax-Friedrichs and Harten-Lax-van Leer *)
LLF(l, r, g) ==
  LET s == Max(Plus(Mag(l.u), Fast(l, g)), Plus(Mag(r.u), Fast(r, g)))
      fl == Phys(l, g)   fr == Phys(r, g)
      ul == Cons(l, g)   ur == Cons(r, g)
  IN  TLCEval([k \in Idx |-> Half(Minus(Plus(fl[k], fr[k]), Times(s, Minus(ur[k], ul[k]))))])
SlowEdge(l, r, c) == Minus(Min(l.u, r.u), c)
FastEdge(l, r, c) == Plus(Max(l.u, r.u), c)
HLL(l, r, g) ==
  LET c == Max(Fast(l, g), Fast(r, g))
      sl == Min(SlowEdge(l, r, c), O)
      sr == Max(FastEdge(l, r, c), O)
      i == Recip(Minus(sr, sl))
      fl == Phys(l, g)   fr == Phys(r, g)
      ul == Cons(l, g)   ur == Cons(r, g)
      ss == Times(sl, sr)
  IN  TLCEval([k \in Idx |-> Times(Plus(Minus(Times(sr, fl[k]), Times(sl, fr[k])), Times(ss, Minus(ur[k], ul[k]))), i)])
-----------------------------------------------------------------------------
(* three waves: the outer ones and a contact; also the frame of the five-wave solver *)
Frame(l, r, g) ==
  LET c == Max(Fast(l, g), Fast(r, g))
      sl == SlowEdge(l, r, c)
      sr == FastEdge(l, r, c)
      kl == Times(l.d, Minus(l.u, sl))
      kr == Times(r.d, Minus(sr, r.u))
      i == Recip(Plus(kl, kr))
      pl == Ptot(l)  pr == Ptot(r)
      us == Times(Plus(Plus(Times(kr, r.u), Times(kl, l.u)), Minus(pl, pr)), i)
      ps == Times(Plus(Plus(Times(kr, pl), Times(kl, pr)), Times3(kl, kr, Minus(l.u, r.u))), i)
  IN  [sl |-> sl, sr |-> sr, us |-> us, ps |-> ps]
HLLC(l, r, g) ==
  LET f == Frame(l, r, g)
      (* state behind the outer wave s of side q *)
      Star(q, s) ==
        LET i == Recip(Minus(s, f.us))
            d == Times3(q.d, Minus(s, q.u), i)
            e == Times(Plus(Minus(Times(Minus(s, q.u), Etot(q, g)), Times(q.p, q.u)), Times(f.ps, f.us)), i)
        IN  Advect(d, f.us, q.v, q.w, O, O, O, f.ps, e, O)
  IN  IF Gt(f.sl, O) THEN Phys(l, g)
      ELSE IF Gt(f.us, O) THEN Star(l, f.sl)
      ELSE IF Gt(f.sr, O) THEN Star(r, f.sr)
      ELSE Phys(r, g)
-----------------------------------------------------------------------------
(* five waves: two fast waves, two rotations, a contact *)
HLLD(l, r, g) ==
  LET f == Frame(l, r, g)
      a == l.a
      sg == IF Neg(a) THEN -1 ELSE 1
      Star(q, s) ==
        LET i == Recip(Minus(s, f.us))
            k == Times(q.d, Minus(s, q.u))
            est == Minus(Times(k, Minus(s, f.us)), Sq(a))
            eo == Minus(Times(k, Minus(s, q.u)), Sq(a))
            j == Recip(est)
            flat == q.b = O /\ q.c = O
            tv == IF flat THEN O ELSE Times3(a, Minus(f.us, q.u), j)
            tb == IF flat THEN O ELSE Times(eo, j)
            v == Minus(q.v, Times(q.b, tv))
            w == Minus(q.w, Times(q.c, tv))
            b == Times(q.b, tb)
            c == Times(q.c, tb)
            vb == Plus(Times(f.us, a), Plus(Times(v, b), Times(w, c)))
            e == Times(Plus(Plus(Minus(Times(Minus(s, q.u), Etot(q, g)), Times(Ptot(q), q.u)), Times(f.ps, f.us)),
                            Times(a, Minus(VdotB(q), vb))), i)
        IN  [d |-> Times(k, i), v |-> v, w |-> w, b |-> b, c |-> c, vb |-> vb, e |-> e]
      sl == Star(l, f.sl)
      sr == Star(r, f.sr)
      rl == Root(sl.d)
      rr == Root(sr.d)
      (* rotations move with the speed of the flow plus or minus the Alfven speed *)
      al == Minus(f.us, Div(Mag(a), rl))
      ar == Plus(f.us, Div(Mag(a), rr))
      i == Recip(Plus(rl, rr))
      v2 == Times(Plus(Plus(Times(rl, sl.v), Times(rr, sr.v)), By(Minus(sr.b, sl.b), sg)), i)
      w2 == Times(Plus(Plus(Times(rl, sl.w), Times(rr, sr.w)), By(Minus(sr.c, sl.c), sg)), i)
      b2 == Times(Plus(Plus(Times(rl, sr.b), Times(rr, sl.b)), By(Times3(rl, rr, Minus(sr.v, sl.v)), sg)), i)
      c2 == Times(Plus(Plus(Times(rl, sr.c), Times(rr, sl.c)), By(Times3(rl, rr, Minus(sr.w, sl.w)), sg)), i)
      vb2 == Plus(Times(f.us, a), Plus(Times(v2, b2), Times(w2, c2)))
      Out(d, v, w, b, c, e, vb) == Advect(d, f.us, v, w, a, b, c, f.ps, e, vb)
  IN  IF Gt(f.sl, O) THEN Phys(l, g)
      ELSE IF ~Gt(f.sr, O) THEN Phys(r, g)
      ELSE IF Gt(al, O) THEN Out(sl.d, sl.v, sl.w, sl.b, sl.c, sl.e, sl.vb)
      ELSE IF Gt(f.us, O) THEN Out(sl.d, v2, w2, b2, c2, Minus(sl.e, By(Times(rl, Minus(sl.vb, vb2)), sg)), vb2)
      ELSE IF Gt(ar, O) THEN Out(sr.d, v2, w2, b2, c2, Plus(sr.e, By(Times(rr, Minus(sr.vb, vb2)), sg)), vb2)
      ELSE Out(sr.d, sr.v, sr.w, sr.b, sr.c, sr.e, sr.vb)
-----------------------------------------------------------------------------
(* the two-shock solution: pressure and velocity between the waves are those   *)
(* reached from both sides through shock jump relations; a rarefaction is      *)
(* sampled linearly between its edges                                          *)
G6(x, g) == Over(By(x, g.n + g.d), 2 * g.n)
MassFlux(q, g, ps) == Root(Times3(Gam(q.p, g), q.d, Plus(I(1), G6(Div(Minus(ps, q.p), q.p), g))))
RECURSIVE StarP(_, _, _, _, _)
StarP(l, r, g, p, n) ==
  IF n = 0 THEN p
  ELSE LET wl == MassFlux(l, g, p)
           wr == MassFlux(r, g, p)
           kl == Times3(Gam(l.p, g), l.d, I(1))
           kr == Times3(Gam(r.p, g), r.d, I(1))
           ql == Div(By(Times(wl, Sq(wl)), 2), Plus(Sq(wl), kl))
           qr == Div(By(Times(wr, Sq(wr)), 2), Plus(Sq(wr), kr))
           ul == Minus(l.u, Div(Minus(p, l.p), wl))
           ur == Plus(r.u, Div(Minus(p, r.p), wr))
           dp == Max(Times(Div(Times(ql, qr), Plus(ql, qr)), Minus(ul, ur)), Uminus(p))
       IN  IF Le(Mag(dp), Tenth(p, 15)) THEN Plus(p, dp) ELSE StarP(l, r, g, Plus(p, dp), n - 1)
TwoShock(l, r, g) ==
  LET wl0 == Root(Times(Gam(l.p, g), l.d))
      wr0 == Root(Times(Gam(r.p, g), r.d))
      p0 == Max(Div(Plus(Plus(Times(wr0, l.p), Times(wl0, r.p)), Times3(wl0, wr0, Minus(l.u, r.u))), Plus(wl0, wr0)), O)
      ps == StarP(l, r, g, p0, 40)
      wl == MassFlux(l, g, ps)
      wr == MassFlux(r, g, ps)
      us == Half(Plus(Plus(l.u, Div(Minus(l.p, ps), wl)), Minus(r.u, Div(Minus(r.p, ps), wr))))
      right == Neg(us)
      q == IF right THEN r ELSE l
      w == IF right THEN wr ELSE wl
      U(x) == IF right THEN Uminus(x) ELSE x          \* velocity towards the side away from q
      ds == Div(q.d, Plus(I(1), Div(Times(q.d, Minus(q.p, ps)), Sq(w))))
      co == Root(C2(q, g))
      cs == Root(Div(Gam(ps, g), ds))
      shock == Le(q.p, ps)
      sh == Minus(Div(w, q.d), U(q.u))
      so == IF shock THEN sh ELSE Minus(co, U(q.u))
      si == IF shock THEN sh ELSE Minus(cs, U(us))
      fr == Max(O, Min(I(1), Half(Plus(I(1), Div(Plus(so, si), Max(Minus(so, si), Mag(Plus(so, si))))))))
      Mix(x, y) == IF Gt(si, O) THEN x ELSE IF Lt(so, O) THEN y
                   ELSE Plus(Times(fr, x), Times(Minus(I(1), fr), y))
  IN  Phys([q EXCEPT !.d = Mix(ds, q.d), !.u = Mix(us, q.u), !.p = Mix(ps, q.p)], g)
-----------------------------------------------------------------------------
(* what every solver of this kind has to return *)
Flux(s, l, r, g) ==
  LET j == Join(l, r)
  IN  CASE s = "llf" -> LLF(j[1], j[2], g)
        [] s = "hll" -> HLL(j[1], j[2], g)
        [] s = "hllc" -> HLLC(l, r, g)
        [] s = "hlld" -> HLLD(j[1], j[2], g)
        [] s = "approx" -> TwoShock(l, r, g)
Hydro == {"approx", "llf", "hll", "hllc"}
Mhd == {"llf", "hll", "hlld"}
Solvers == Hydro \cup Mhd
(* magnitudes against which rounding errors are judged *)
Scales(l, r, g) ==
  LET s == Max(Plus(Mag(l.u), Fast(l, g)), Plus(Mag(r.u), Fast(r, g)))
      el == Plus(Etot(l, g), Ptot(l))
      er == Plus(Etot(r, g), Ptot(r))
      e == Max(el, er)
      d == Max(l.d, r.d)
  IN  <<Times(d, s), Times(e, s), e, Times(s, Root(e))>>
ScaleOf(k) == IF k <= 2 THEN k ELSE IF k <= 5 THEN 3 ELSE 4
-----------------------------------------------------------------------------
(* the electric field at an edge where four states meet: LL LR (left, below /  *)
(* above), RL RR (right); the z component of u B - v A                          *)
Min4(x) == Min(Min(x.ll, x.lr), Min(x.rl, x.rr))
Max4(x) == Max(Max(x.ll, x.lr), Max(x.rl, x.rr))
On(Op(_), q) == [ll |-> Op(q.ll), lr |-> Op(q.lr), rl |-> Op(q.rl), rr |-> Op(q.rr)]
Turn(q) == [q EXCEPT !.u = q.v, !.v = q.u, !.a = q.b, !.b = q.a]
EMF(q, g) ==
  LET FX(x) == Fast(x, g)
      FY(x) == Fast(Turn(x), g)
      GU(x) == x.u
      GV(x) == x.v
      cx == Max4(On(FX, q))
      cy == Max4(On(FY, q))
      sl == Minus(Min4(On(GU, q)), cx)
      sr == Plus(Max4(On(GU, q)), cx)
      sb == Minus(Min4(On(GV, q)), cy)
      st == Plus(Max4(On(GV, q)), cy)
      kx(x, s) == Times(x.d, Mag(Minus(x.u, s)))
      ky(x, s) == Times(x.d, Mag(Minus(x.v, s)))
      Sum4(w, x, y, z) == Plus(Plus(w, x), Plus(y, z))
      p == On(Ptot, q)
      us == Div(Plus(Sum4(Times(kx(q.ll, sl), q.ll.u), Times(kx(q.lr, sl), q.lr.u), Times(kx(q.rl, sr), q.rl.u), Times(kx(q.rr, sr), q.rr.u)),
                     Minus(Plus(p.ll, p.lr), Plus(p.rl, p.rr))),
                Sum4(kx(q.ll, sl), kx(q.lr, sl), kx(q.rl, sr), kx(q.rr, sr)))
      vs == Div(Plus(Sum4(Times(ky(q.ll, sb), q.ll.v), Times(ky(q.lr, st), q.lr.v), Times(ky(q.rl, sb), q.rl.v), Times(ky(q.rr, st), q.rr.v)),
                     Minus(Plus(p.ll, p.rl), Plus(p.lr, p.rr))),
                Sum4(ky(q.ll, sb), ky(q.lr, st), ky(q.rl, sb), ky(q.rr, st)))
      (* compression of each state across the x and the y wave *)
      Star(x, sx, sy) ==
        LET fx == Div(Minus(sx, x.u), Minus(sx, us))
            fy == Div(Minus(sy, x.v), Minus(sy, vs))
            A == Times(x.a, fy)
            Bb == Times(x.b, fx)
        IN  [a |-> A, b |-> Bb, dx |-> Times(x.d, fx), dy |-> Times(x.d, fy), d |-> Times3(x.d, fx, fy),
             ex |-> Minus(Times(us, Bb), Times(x.v, x.a)), ey |-> Minus(Times(x.u, x.b), Times(vs, A)),
             e |-> Minus(Times(us, Bb), Times(vs, A))]
      z == [ll |-> Star(q.ll, sl, sb), lr |-> Star(q.lr, sl, st), rl |-> Star(q.rl, sr, sb), rr |-> Star(q.rr, sr, st)]
      Alf(b, d) == Div(Mag(b), Root(d))
      Tiny == Tenth(I(1), 10)
      Two(x, y, o) == Max(Tiny, Max(Max(Alf(o[1], x[1]), Alf(o[2], x[2])), Max(Alf(o[3], y[1]), Alf(o[4], y[2]))))
      aL == Two(<<z.lr.dx, z.lr.d>>, <<z.ll.dx, z.ll.d>>, <<q.lr.a, z.lr.a, q.ll.a, z.ll.a>>)
      aR == Two(<<z.rr.dx, z.rr.d>>, <<z.rl.dx, z.rl.d>>, <<q.rr.a, z.rr.a, q.rl.a, z.rl.a>>)
      aB == Two(<<z.ll.dy, z.ll.d>>, <<z.rl.dy, z.rl.d>>, <<q.ll.b, z.ll.b, q.rl.b, z.rl.b>>)
      aT == Two(<<z.lr.dy, z.lr.d>>, <<z.rr.dy, z.rr.d>>, <<q.lr.b, z.lr.b, q.rr.b, z.rr.b>>)
      xl == Min(Minus(us, aL), O)
      xr == Max(Plus(us, aR), O)
      yb == Min(Minus(vs, aB), O)
      yt == Max(Plus(vs, aT), O)
      ix == Recip(Minus(xr, xl))
      iy == Recip(Minus(yt, yb))
      E0(x) == Minus(Times(x.u, x.b), Times(x.v, x.a))
      (* one-dimensional averages along x and along y *)
      AX(el, er, bl, br) == Times(Plus(Minus(Times(xr, el), Times(xl, er)), Times3(xr, xl, Minus(br, bl))), ix)
      AY(eb, et, ab, at) == Times(Minus(Minus(Times(yt, eb), Times(yb, et)), Times3(yt, yb, Minus(at, ab))), iy)
      at == Times(Minus(Times(xr, z.rr.a), Times(xl, z.lr.a)), ix)
      ab == Times(Minus(Times(xr, z.rl.a), Times(xl, z.ll.a)), ix)
      br == Times(Minus(Times(yt, z.rr.b), Times(yb, z.rl.b)), iy)
      bl == Times(Minus(Times(yt, z.lr.b), Times(yb, z.ll.b)), iy)
      mid == Plus(Minus(Times3(Plus(Minus(Times3(xl, yb, z.rr.e), Times3(xl, yt, z.rl.e)),
                                    Minus(Times3(xr, yt, z.ll.e), Times3(xr, yb, z.lr.e))), ix, iy),
                        Times(Times3(yt, yb, iy), Minus(at, ab))),
                  Times(Times3(xr, xl, ix), Minus(br, bl)))
      right == ~Neg(sl)    left == Neg(sr)           \* the flow leaves to the right / to the left
      up == ~Neg(sb)       down == Neg(st)
  IN  IF up THEN IF right THEN E0(q.ll) ELSE IF left THEN E0(q.rl) ELSE AX(z.ll.ex, z.rl.ex, q.ll.b, q.rl.b)
      ELSE IF down THEN IF right THEN E0(q.lr) ELSE IF left THEN E0(q.rr) ELSE AX(z.lr.ex, z.rr.ex, q.lr.b, q.rr.b)
      ELSE IF right THEN AY(z.ll.ey, z.lr.ey, q.ll.a, q.lr.a)
      ELSE IF left THEN AY(z.rl.ey, z.rr.ey, q.rl.a, q.rr.a)
      ELSE mid
EmfScale(q, g) ==
  LET S(x) == Times(Plus(Mag(x.u), Plus(Mag(x.v), Plus(Fast(x, g), Fast(Turn(x), g)))), Root(Plus(Sq(x.a), Plus(Sq(x.b), Sq(x.c)))))
  IN  Max4(On(S, q))
(* the four states around an edge in the frame of that edge (code order: right-top, *)
(* left-top, right-bottom, left-bottom corner of the cells left-below ... right-above) *)
Turned(q, dir) == CASE dir = "z" -> q
                    [] dir = "y" -> [q EXCEPT !.u = q.w, !.v = q.u, !.w = q.v, !.a = q.c, !.b = q.a, !.c = q.b]
                    [] dir = "x" -> [q EXCEPT !.u = q.v, !.v = q.w, !.w = q.u, !.a = q.b, !.b = q.c, !.c = q.a]
Edge(rt, lt, rb, lb, dir) ==
  LET LL == Turned(rt, dir)  RL == Turned(lt, dir)  LR == Turned(rb, dir)  RR == Turned(lb, dir)
      M(x, y) == Half(Plus(x, y))
  IN  [ll |-> [LL EXCEPT !.a = M(LL.a, RL.a), !.b = M(LL.b, LR.b)],
       rl |-> [RL EXCEPT !.a = M(LL.a, RL.a), !.b = M(RL.b, RR.b)],
       lr |-> [LR EXCEPT !.a = M(LR.a, RR.a), !.b = M(LL.b, LR.b)],
       rr |-> [RR EXCEPT !.a = M(LR.a, RR.a), !.b = M(RL.b, RR.b)]]
=============================================================================
