------------------------------ MODULE Initial ------------------------------
(* The state every named problem starts from, as a function of its parameters  *)
(* and of the position of a cell (or of a solution point inside a cell).       *)
(* A problem gives, at a position, the set of states [d, p, u, v, w] (density, *)
(* pressure, velocity) it allows there: one state, or those of both regions    *)
(* within rounding of a front. With a magnetic field, Field(e, a, x, s) is the  *)
(* component a on the lower face of a cell at x. Stored are the conserved      *)
(* densities of it: d, total energy, momentum, field.                          *)
(*                                                                             *)
(* An instance e holds problem, dim, mhd, sdm (points per direction, 0 for     *)
(* finite volumes), n, lo, hi (cells and extent of the whole domain), g (gamma)*)
(* and p: the parameters which are set. Missing ones take their defaults.      *)
EXTENDS Fun, FiniteSets
Hydro == {"implode", "blast", "kelvin_helmholtz", "gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk"}
Hydro2 == Hydro \cup {"four_quadrant", "isentropic_vortex"}
Mhd == {"implode", "blast", "orszag_tang", "kelvin_helmholtz", "rotor", "field_loop", "wave"}
Sdm3 == {"sod", "implode", "blast", "kelvin_helmholtz", "gresho_vortex", "wedge", "jet", "isentropic_vortex", "shu_osher"}
Sdm2 == Sdm3 \cup {"four_quadrant"}
Problems(dim, mhd, sdm) == IF mhd THEN Mhd ELSE IF sdm THEN (IF dim = 2 THEN Sdm2 ELSE Sdm3) ELSE IF dim = 2 THEN Hydro2 ELSE Hydro
(* an unknown name selects the implosion, the Orszag-Tang vortex with a magnetic field *)
Actual(e) == IF e.problem \in Problems(e.dim, e.mhd, e.sdm > 0) THEN e.problem ELSE IF e.mhd THEN "orszag_tang" ELSE "implode"
Has(e, k) == k \in DOMAIN e.p
G(e, k, dflt) == IF Has(e, k) THEN e.p[k] ELSE dflt
Z == O
One == I(1)
Len3(e, a) == Minus(e.hi[a], e.lo[a])
Mid(e, a) == Half(Plus(e.lo[a], e.hi[a]))
Width(e, a) == Over(Len3(e, a), e.n[a])
(* position of cell c (from 0); of its point l in a spectral difference scheme, at Chebyshev-Gauss points *)
Point(sdm, l) == Half(Minus(One, Cos(Over(By(Pi, 2 * l + 1), 2 * sdm))))
Where(e, c, l, a) == IF e.sdm = 0 THEN Plus(e.lo[a], By(Half(Width(e, a)), 2 * c[a] + 1))
                     ELSE Plus(e.lo[a], Times(Width(e, a), Plus(I(c[a]), Point(e.sdm, l[a]))))
Position(e, c, l) == TLCEval([a \in 1 .. 3 |-> IF a > e.dim THEN Z ELSE Where(e, c, l, a)])
(* is v below t: both answers within rounding of equality (positions of size s) *)
Below(e, v, t, s) == IF Le(Mag(Minus(v, t)), Tenth(Plus(Mag(s), One), e.edge)) THEN {TRUE, FALSE} ELSE {Lt(v, t)}
St(d, p, u, v, w) == [d |-> d, p |-> p, u |-> u, v |-> v, w |-> w]
Rest(d, p) == St(d, p, Z, Z, Z)
R2(x, y) == Plus(Sq(x), Sq(y))
(* --------------------------------------------------------------------------- *)
Outer(e) == St(G(e, "density_outer", One), G(e, "pressure_outer", One), G(e, "vx_outer", Z), G(e, "vy_outer", Z), G(e, "vz_outer", Z))
Inner(e) == St(G(e, "density_inner", Dec(125, 3)), G(e, "pressure_inner", Dec(14, 2)), G(e, "vx_inner", Z), G(e, "vy_inner", Z), G(e, "vz_inner", Z))
Implode(e, x) ==
  LET two == e.dim = 2
      s == IF two THEN Plus(x[1], x[2]) ELSE Plus(x[1], Plus(x[2], x[3]))
      v == IF two /\ ~e.mhd THEN Plus(x[1], Sq(x[2])) ELSE s
      top == IF two /\ ~e.mhd THEN Dec(15, 1) ELSE Dec(25, 1)
      front == Plus(Mid(e, 1), IF two THEN e.lo[2] ELSE Plus(e.lo[2], e.lo[3]))
      out == IF G(e, "shape_region", 0) = 1
             THEN {a /\ b : a \in Below(e, Dec(5, 1), v, v), b \in Below(e, v, top, v)}
             ELSE Below(e, front, s, s)
  IN  {IF o THEN Outer(e) ELSE Inner(e) : o \in out}
Blast(e, x) ==
  LET r == G(e, "radius", Over(Plus(e.lo[1], e.hi[1]), 20))
      d(a, k) == Minus(x[a], G(e, k, Mid(e, a)))
      r2 == Plus(R2(d(1, "center_x"), d(2, "center_y")), IF e.dim = 3 THEN Sq(d(3, "center_z")) ELSE Z)
  IN  {IF in THEN Rest(G(e, "density_in", One), G(e, "pressure_in", I(10)))
             ELSE Rest(G(e, "density_out", Dec(12, 1)), G(e, "pressure_out", Dec(1, 1))) : in \in Below(e, r2, Sq(r), r2)}
(* shear flow along x, layered along the last axis *)
KelvinHelmholtz(e, x) ==
  LET y == x[e.dim]
      din == G(e, "d_in", One)  dout == G(e, "d_out", One)
      vin == G(e, "vflow_in", Dec(-5, 1))  vout == G(e, "vflow_out", Dec(5, 1))
      p == G(e, "pressure", I(10))
      w0 == G(e, "w0", Dec(1, 1))  n == G(e, "mode", 2)  dl == G(e, "delta", Dec(3, 2))
      q == Dec(25, 2)  r == Dec(75, 2)
      wave(a) == Sin(Times(By(Pi, n), x[a]))
      ramp == Plus(Logistic(Div(By(Minus(y, q), 2), dl)), Logistic(Div(By(Minus(r, y), 2), dl)))
      blend(a, b) == Plus(a, Times(ramp, Minus(b, a)))
      inside == {a /\ b : a \in Below(e, q, y, y), b \in Below(e, y, r, y)}
  IN  IF G(e, "perturbation_sine_robertson", TRUE)
      THEN {IF e.dim = 2 THEN St(blend(din, dout), p, blend(vin, vout), Times(w0, wave(1)), Z)
            ELSE St(blend(din, dout), p, blend(vin, vout), Half(blend(vin, vout)), Times3(w0, wave(1), wave(2)))}
      ELSE {LET d == IF in THEN din ELSE dout
                u == IF in THEN vin ELSE vout
            IN  IF e.dim = 2 THEN St(d, p, u, Times(w0, wave(1)), Z) ELSE St(d, p, u, Z, Times(w0, wave(1))) : in \in inside}
(* random perturbations: the unperturbed states and the largest perturbation *)
KhRandom(e) == Actual(e) = "kelvin_helmholtz" /\ G(e, "perturbation_rand", FALSE)
KhBase(e, x) ==
  LET y == Div(Minus(x[e.dim], e.lo[e.dim]), Len3(e, e.dim))
      p == G(e, "pressure", I(10))
  IN  {IF a /\ b THEN St(G(e, "d_in", One), p, G(e, "vflow_in", Dec(-5, 1)), Z, Z) ELSE St(G(e, "d_out", One), p, G(e, "vflow_out", Dec(5, 1)), Z, Z)
       : a \in Below(e, Dec(25, 2), y, y), b \in Below(e, y, Dec(75, 2), y)}
KhAmplitude(e) == Half(G(e, "amplitude", Dec(1, 1)))
(* vortex around the axis of the coordinates in balance with its pressure *)
GreshoSpin(r, z) == CASE z = 1 -> By(r, 5) [] z = 2 -> Minus(I(2), By(r, 5)) [] z = 3 -> Z
GreshoPressure(r, z) ==
  CASE z = 1 -> By(Half(Sq(r)), 25)
    [] z = 2 -> Plus(By(Half(Sq(r)), 25), By(Plus(Minus(One, By(r, 5)), Ln(By(r, 5))), 4))
    [] z = 3 -> Minus(By(Ln2, 4), I(2))
Gresho(e, x) ==
  LET d == G(e, "rho0", One)  m == G(e, "Ma", Dec(1, 1))
      p0 == Div(d, Times(e.g, Sq(m)))
      r == Root(R2(x[1], x[2]))
      zones == {IF a THEN 1 ELSE IF b THEN 2 ELSE 3 : a \in Below(e, r, Dec(2, 1), r), b \in Below(e, r, Dec(4, 1), r)}
      ok == {z \in zones : z # 2 \/ Gt(r, Dec(19, 2))}
      over == IF Pos(r) /\ Gt(r, Dec(1, 12)) THEN Recip(r) ELSE Z
  IN  {LET s == Times(GreshoSpin(r, z), over)
       IN  St(d, Plus(p0, GreshoPressure(r, z)), Uminus(Times(s, x[2])), Times(s, x[1]), Z) : z \in ok}
(* the configurations of Lax and Liu: quadrants from upper right, anticlockwise: d, u, v, p in 10^-4 *)
T(d, u, v, p) == [d |-> d, u |-> u, v |-> v, p |-> p]
Configs == <<
  <<T(10000, 0, 0, 10000), T(5197, -7259, 0, 4000), T(1072, -7259, -14045, 439), T(2579, 0, -14045, 1500)>>,
  <<T(10000, 0, 0, 10000), T(5197, -7259, 0, 4000), T(10000, -7259, -7259, 10000), T(5197, 0, -7259, 4000)>>,
  <<T(15000, 0, 0, 15000), T(5323, 12060, 0, 3000), T(1380, 12060, 12060, 290), T(5323, 0, 12060, 3000)>>,
  <<T(11000, 0, 0, 11000), T(5065, 8939, 0, 3500), T(11000, 8939, 8939, 11000), T(5065, 0, 8939, 3500)>>,
  <<T(10000, -7500, -5000, 10000), T(20000, -7500, 5000, 10000), T(10000, 7500, 5000, 10000), T(30000, 7500, -5000, 10000)>>,
  <<T(10000, 7500, -5000, 10000), T(20000, 7500, 5000, 10000), T(10000, -7500, 5000, 10000), T(30000, -7500, -5000, 10000)>>,
  <<T(10000, 1000, 1000, 10000), T(5197, -6259, 1000, 4000), T(8000, 1000, 1000, 4000), T(5197, 1000, -6259, 4000)>>,
  <<T(5197, 1000, 1000, 4000), T(10000, -6259, 1000, 10000), T(8000, 1000, 1000, 10000), T(10000, 1000, -6259, 10000)>>,
  <<T(10000, 0, 3000, 10000), T(20000, 0, -3000, 10000), T(10390, 0, -8133, 4000), T(5197, 0, -4259, 4000)>>,
  <<T(10000, 0, 4297, 10000), T(5000, 0, 6076, 10000), T(2281, 0, -6076, 3333), T(4562, 0, -4297, 3333)>>,
  <<T(10000, 1000, 0, 10000), T(5313, 8276, 0, 4000), T(8000, 1000, 0, 4000), T(5313, 1000, 7276, 4000)>>,
  <<T(5313, 0, 0, 4000), T(10000, 7276, 0, 10000), T(8000, 0, 0, 10000), T(10000, 0, 7276, 10000)>>,
  <<T(10000, 0, -3000, 10000), T(20000, 0, 3000, 10000), T(10625, 0, 8145, 4000), T(5313, 0, 4276, 4000)>>,
  <<T(20000, 0, -5606, 80000), T(10000, 0, -12172, 80000), T(4736, 0, 12172, 26667), T(9474, 0, 11606, 26667)>>,
  <<T(10000, 1000, -3000, 10000), T(5197, -6259, -3000, 4000), T(8000, 1000, -3000, 4000), T(5313, 1000, 4276, 4000)>>,
  <<T(5313, 1000, 1000, 4000), T(10222, -6179, 1000, 10000), T(8000, 1000, 1000, 10000), T(10000, 1000, 8276, 10000)>>,
  <<T(10000, 0, -4000, 10000), T(20000, 0, -3000, 10000), T(10625, 0, 2145, 4000), T(5197, 0, -11259, 4000)>>,
  <<T(10000, 0, 10000, 10000), T(20000, 0, -3000, 10000), T(10625, 0, 2145, 4000), T(5197, 0, 2741, 4000)>>,
  <<T(10000, 0, 3000, 10000), T(20000, 0, -3000, 10000), T(10625, 0, 2145, 4000), T(5197, 0, -4259, 4000)>> >>
FourQuadrant(e, x) ==
  LET k == G(e, "config_number", 0)
      c == Configs[IF k \in 0 .. 18 THEN k + 1 ELSE 1]
      q(a, b) == c[IF a THEN (IF b THEN 3 ELSE 2) ELSE IF b THEN 4 ELSE 1]
      s(t) == St(Dec(t.d, 4), Dec(t.p, 4), Dec(t.u, 4), Dec(t.v, 4), Z)
  IN  {s(q(a, b)) : a \in Below(e, x[1], G(e, "x", Dec(8, 1)), x[1]), b \in Below(e, x[2], G(e, "y", Dec(8, 1)), x[2])}
(* isentropic vortex in a uniform flow, temperature p / d *)
RECURSIVE Wrap(_, _)
Wrap(v, l) == IF Lt(v, l) THEN v ELSE Wrap(Minus(v, l), l)
Vortex(e, x) ==
  LET da == G(e, "density_ambient", One)  ta == G(e, "temperature_ambient", One)
      ua == G(e, "vx_ambient", One)  va == G(e, "vy_ambient", One)
      b == G(e, "strength", I(5))
      end == G(e, "use_tEnd", FALSE)
      t == G(e, "tEnd", One)
      cx == LET c == G(e, "center_x", Mid(e, 1)) IN IF end THEN Wrap(Plus(c, Times(t, ua)), Len3(e, 1)) ELSE c
      cy == LET c == G(e, "center_y", Mid(e, 2)) IN IF end THEN Wrap(Plus(c, Times(t, va)), Len3(e, 2)) ELSE c
      xp == Minus(x[1], cx)  yp == Minus(x[2], cy)
      h == Exp(Half(Minus(One, R2(xp, yp))))
      s == Div(Times(b, h), TwoPi)
      g1 == Minus(e.g, One)
      temp == Minus(ta, Div(Times3(g1, Sq(b), Sq(h)), By(Times3(e.g, Pi, Pi), 8)))
      d == Times(da, Power(Div(temp, ta), Recip(g1)))
  IN  {St(d, Times(d, temp), Minus(ua, Times(s, yp)), Plus(va, Times(s, xp)), Z)}
(* heavy above light fluid, at rest in a uniform gravity but for a perturbation across the interface *)
Gravity(e) == <<G(e, "gx", Z), G(e, "gy", Dec(-1, 1)), G(e, "gz", Z)>>
Depth(e, x) == LET g == Gravity(e) IN Plus(Plus(Times(g[1], x[1]), Times(g[2], x[2])), IF e.dim = 3 THEN Times(g[3], x[3]) ELSE Z)
RayleighTaylor(e, x) ==
  LET cosine(a) == Plus(One, Cos(Div(Times(TwoPi, x[a]), Len3(e, a))))
      m == Over(Times3(G(e, "amplitude", Dec(1, 2)), cosine(1), cosine(2)), 4)      \* momentum
  IN  {LET d == IF up THEN G(e, "d1", I(2)) ELSE G(e, "d0", One)
           v == Div(m, d)
       IN  St(d, Plus(One, Times(d, Depth(e, x))), Z, IF e.dim = 2 THEN v ELSE Z, IF e.dim = 3 THEN v ELSE Z)
       : up \in Below(e, Mid(e, e.dim), x[e.dim], x[e.dim])}
Bubble(e, x) ==
  LET d(a, k, v) == Minus(x[a], G(e, k, v))
      r2 == Plus(R2(d(1, "x0", Dec(5, 1)), d(2, "y0", Dec(25, 2))), IF e.dim = 3 THEN Sq(d(3, "z0", Dec(5, 1))) ELSE Z)
      r == G(e, "R", Dec(1, 1))
  IN  {LET d0 == IF in THEN G(e, "din", One) ELSE G(e, "dout", I(2)) IN Rest(d0, Plus(One, Times(d0, Depth(e, x)))) : in \in Below(e, r2, Sq(r), r2)}
(* a disk in orbit around a softened point mass at its centre *)
DiskAt(e, x) == TLCEval([a \in 1 .. 3 |-> IF a > e.dim THEN Z ELSE Minus(x[a], G(e, <<"xc", "yc", "zc">>[a], Mid(e, a)))])
DiskMass(e) == Times(G(e, "G", One), G(e, "M", One))
DiskSoft(e) == G(e, "soften", Dec(1, 2))
DiskPull(e, x) ==
  LET y == DiskAt(e, x)
      r2 == Plus(Plus(R2(y[1], y[2]), Sq(y[3])), Sq(DiskSoft(e)))
      k == Uminus(Div(DiskMass(e), Times(r2, Root(r2))))
  IN  TLCEval([a \in 1 .. 3 |-> Times(k, y[a])])
Disk(e, x) ==
  LET y == DiskAt(e, x)
      R == G(e, "radius", Over(Len3(e, 1), 8))
      Ri == G(e, "radius_inner", Over(R, 10))
      cw == G(e, "contrast_width", Dec(1, 2))
      kc == G(e, "contrast_density", I(100))
      gm == DiskMass(e)
      r2 == R2(y[1], y[2])
      r == Root(r2)
      soft == Root(Plus(r2, Sq(DiskSoft(e))))
      sph == Root(Plus(Plus(r2, Sq(DiskSoft(e))), Sq(y[3])))
      h == Half(R)
      z == Mag(y[3])
      flat == Times(G(e, "ref_density", One), Recip(Times(Sq(Div(soft, R)), Root(Div(soft, R)))))
      state(in) ==
        LET c2 == Div(Times(Sq(G(e, "ref_sound_speed", Dec(2, 1))), R), IF in THEN Ri ELSE r)
            w2 == IF in THEN Minus(Div(gm, Times(soft, Sq(soft))), Div(Times(Dec(25, 1), c2), Sq(soft)))
                  ELSE Minus(Div(gm, Times(Sq(soft), sph)), Div(Times(Dec(35, 1), c2), Sq(soft)))
            w == IF Pos(w2) THEN Root(w2) ELSE Z
            d0 == Times(flat, Exp(Times(Div(gm, c2), Minus(Recip(sph), Recip(soft)))))
            cut == Max(Div(Minus(r, R), cw), Div(Minus(z, h), cw))
            d1 == IF ~Pos(cut) THEN d0 ELSE IF Gt(cut, One) THEN Div(d0, kc) ELSE Times(d0, Exp(Uminus(Times(cut, Ln(kc)))))
            d == Max(d1, Dec(1, 6))
            k == IF Gt(r, Dec(1, 12)) THEN Times(w, Div(soft, r)) ELSE Z
        IN  St(d, Times(c2, d), Uminus(Times(k, y[2])), Times(k, y[1]), Z)
  IN  {state(in) : in \in Below(e, r, Ri, r)}
(* ---- magnetised problems ---------------------------------------------------- *)
OrszagTang(e, x) ==
  LET p0 == Div(e.g, By(Pi, 4)) IN {St(Times(e.g, p0), p0, Uminus(Sin(Times(TwoPi, x[2]))), Sin(Times(TwoPi, x[1])), Z)}
OtField(e, a, x) ==
  LET b0 == Iroot(By(Pi, 4))
      turn == IF e.dim = 2 THEN One
              ELSE Cos(Div(Times3(By(TwoPi, 2), G(e, "kt", Z), Minus(x[3], e.lo[3])), Len3(e, 3)))
  IN  CASE a = 1 -> Uminus(Times3(b0, turn, Sin(Times(TwoPi, x[2])))) [] a = 2 -> Times3(b0, turn, Sin(Times(By(TwoPi, 2), x[1]))) [] a = 3 -> Z
Rotor(e, x) ==
  LET r0 == G(e, "r0", Dec(1, 1))  r1 == G(e, "r1", Dec(115, 3))  u0 == G(e, "u0", I(2))  p == G(e, "p0", One)
      dx == Minus(x[1], Mid(e, 1))  dy == Minus(x[2], Mid(e, 2))
      r == Root(R2(dx, dy))
      f == Div(Minus(r1, r), Minus(r1, r0))
      zones == {IF a THEN 1 ELSE IF b THEN 2 ELSE 3 : a \in Below(e, r, r0, r), b \in Below(e, r, r1, r)}
      s(z) == CASE z = 1 -> Div(u0, r0) [] z = 2 -> Div(Times(f, u0), r) [] z = 3 -> Z
      d(z) == CASE z = 1 -> I(10) [] z = 2 -> Plus(One, By(f, 9)) [] z = 3 -> One
  IN  {St(d(z), p, Uminus(Times(s(z), dy)), Times(s(z), dx), Z) : z \in zones}
(* the difference of a function to the next cell along an axis, over the width *)
Next1(e, a, x) == [x EXCEPT ![a] = Plus(x[a], Width(e, a))]
(* a loop of field: the curl of a cone shaped potential along z *)
LoopPotential(e, x) ==
  LET r == Root(R2(x[1], x[2]))
      R == G(e, "radius", One)
  IN  IF Lt(r, R) THEN Times(G(e, "amplitude", One), Minus(R, r)) ELSE Z
Slant(e) == Over(Root(I(5)), 5)                                  \* 1 / sqrt(5)
FieldLoop(e, x) ==
  LET v == G(e, "vflow", One)
      r == Root(R2(x[1], x[2]))
      diag == Root(I(e.n[1] * e.n[1] + e.n[2] * e.n[2] + e.n[3] * e.n[3]))
      w == IF e.dim = 3 THEN v ELSE Div(By(v, e.n[3]), diag)
  IN  {St(IF in THEN G(e, "density_in", One) ELSE One, One, By(Times(v, Slant(e)), 2), Times(v, Slant(e)), w) : in \in Below(e, r, G(e, "radius", One), r)}
LoopField(e, a, x) ==
  CASE a = 1 -> Div(Minus(LoopPotential(e, Next1(e, 2, x)), LoopPotential(e, x)), Width(e, 2))
    [] a = 2 -> Div(Minus(LoopPotential(e, x), LoopPotential(e, Next1(e, 1, x))), Width(e, 1))
    [] a = 3 -> Z
(* a linear wave along an oblique direction (three dimensions): right eigenvectors of the *)
(* fast, Alfven, slow and entropy waves for d, mx, my, mz, E, by, bz, in 10^-7            *)
Rev == << <<4472136, -8944272, 4216370, 1490712, 20124610, 8432740, 2981424>>,
          <<0, 0, -3333333, 9428090, 0, -3333333, 9428090>>,
          <<8944272, -4472136, -8432740, -2981424, 6708204, -4216370, -1490712>>,
          <<10000000, 10000000, 0, 0, 5000000, 0, 0>> >>
WaveOf(e) ==
  LET lx == Len3(e, 1)  ly == Len3(e, 2)  lz == Len3(e, 3)
      h3 == Root(R2(lx, ly))
      s3 == Div(lx, h3)  c3 == Div(ly, h3)
      t2 == Div(Half(Plus(Times(lx, c3), Times(ly, s3))), lz)
      h2 == Root(Plus(One, Sq(t2)))
      s2 == Div(t2, h2)  c2 == Recip(h2)
      lambda == Min(Min(Times3(lx, c2, c3), Times3(ly, c2, s3)), Times(lz, s2))
  IN  [s2 |-> s2, c2 |-> c2, s3 |-> s3, c3 |-> c3, k |-> Div(TwoPi, lambda), amp |-> G(e, "amplitude", Dec(1, 6)), rev |-> Rev[G(e, "type", 0) + 1],
       v0 |-> IF G(e, "type", 0) = 3 THEN One ELSE Z]
WaveB == <<One, Root(I(2)), Half(One)>>
WaveAlong(w, x) == Plus(Times(w.c2, Plus(Times(x[1], w.c3), Times(x[2], w.s3))), Times(x[3], w.s2))
WaveDensities(e, x) ==
  LET w == WaveOf(e)
      sn == Times(w.amp, Sin(Times(w.k, WaveAlong(w, x))))
      r(i) == Times(sn, Dec(w.rev[i], 7))
      mx == Plus(w.v0, r(2))  my == r(3)  mz == r(4)
      b2 == Plus(One, Plus(I(2), Dec(25, 2)))
  IN  [d |-> Plus(One, r(1)),
       e |-> Plus(Plus(Div(Recip(e.g), Minus(e.g, One)), Half(Plus(Sq(w.v0), b2))), r(5)),
       u |-> Minus(Minus(Times3(mx, w.c2, w.c3), Times(my, w.s3)), Times3(mz, w.s2, w.c3)),
       v |-> Minus(Plus(Times3(mx, w.c2, w.s3), Times(my, w.c3)), Times3(mz, w.s2, w.s3)),
       w |-> Plus(Times(mx, w.s2), Times(mz, w.c2))]
(* vector potential on the edge along axis b of the cell at x (x + s/2 on the other axes are its lower edges) *)
WavePotential(e, w, b, x) ==
  LET y == TLCEval([a \in 1 .. 3 |-> IF a = b THEN x[a] ELSE Minus(x[a], Half(Width(e, a)))])
      l == WaveAlong(w, y)
      m == Minus(Times(y[2], w.c3), Times(y[1], w.s3))
      c == Div(Times(w.amp, Cos(Times(w.k, l))), w.k)
      ay == Minus(Times(WaveB[3], l), Times(c, Dec(w.rev[7], 7)))
      az == Plus(Minus(Times(c, Dec(w.rev[6], 7)), Times(WaveB[2], l)), Times(WaveB[1], m))
  IN  CASE b = 1 -> Uminus(Plus(Times(ay, w.s3), Times3(az, w.s2, w.c3)))
        [] b = 2 -> Minus(Times(ay, w.c3), Times3(az, w.s2, w.s3))
        [] b = 3 -> Times(az, w.c2)
WaveField(e, a, x) ==
  LET w == WaveOf(e)
      b == (a % 3) + 1  c == (b % 3) + 1
      D(p, q) == Div(Minus(WavePotential(e, w, p, Next1(e, q, x)), WavePotential(e, w, p, x)), Width(e, q))
  IN  Minus(D(c, b), D(b, c))
(* ---- problems of the spectral difference schemes only ------------------------ *)
Sod(e, x) == {IF l THEN Rest(One, One) ELSE Rest(Dec(125, 3), Dec(1, 1)) : l \in Below(e, x[1], Dec(5, 1), x[1])}
ShuOsher(e, x) ==
  {IF l THEN St(Over(I(27), 7), Over(I(31), 3), Over(By(Root(I(35)), 4), 9), Z, Z)
   ELSE Rest(Plus(One, Over(Sin(By(x[1], 5)), 5)), One) : l \in Below(e, x[1], I(-4), x[1])}
WedgeAngle(e) == G(e, "front_angle", Over(Pi, 3))
WedgeBehind(e) ==
  LET q == Minus(WedgeAngle(e), Half(Pi))
  IN  St(G(e, "rho1", I(8)), G(e, "p1", Dec(1165, 1)), G(e, "u1", Times(Dec(825, 2), Cos(q))), G(e, "v1", Times(Dec(825, 2), Sin(q))), IF e.dim = 3 THEN G(e, "w1", Z) ELSE Z)
WedgeAhead(e) == St(G(e, "rho2", Dec(14, 1)), G(e, "p2", One), G(e, "u2", Z), G(e, "v2", Z), IF e.dim = 3 THEN G(e, "w2", Z) ELSE Z)
Wedge(e, x) ==
  LET an == WedgeAngle(e)
      front == Times(Div(Sin(an), Cos(an)), Minus(x[1], G(e, "front_x", Dec(1, 1))))
  IN  {IF post THEN WedgeBehind(e) ELSE WedgeAhead(e) : post \in Below(e, front, x[2], x[2])}
JetBulk(e) == St(G(e, "rho_bulk", Dec(5, 1)), G(e, "p_bulk", Dec(4127, 4)), G(e, "u_bulk", Z), G(e, "v_bulk", Z), IF e.dim = 3 THEN G(e, "w_bulk", Z) ELSE Z)
Jet(e, x) == {JetBulk(e)}
(* --------------------------------------------------------------------------- *)
States(e, x) ==
  LET a == Actual(e) IN
  CASE a = "implode" -> Implode(e, x) [] a = "blast" -> Blast(e, x) [] a = "kelvin_helmholtz" -> KelvinHelmholtz(e, x)
    [] a = "gresho_vortex" -> Gresho(e, x) [] a = "four_quadrant" -> FourQuadrant(e, x) [] a = "isentropic_vortex" -> Vortex(e, x)
    [] a = "rayleigh_taylor" -> RayleighTaylor(e, x) [] a = "rising_bubble" -> Bubble(e, x) [] a = "disk" -> Disk(e, x)
    [] a = "orszag_tang" -> OrszagTang(e, x) [] a = "rotor" -> Rotor(e, x) [] a = "field_loop" -> FieldLoop(e, x)
    [] a = "sod" -> Sod(e, x) [] a = "shu_osher" -> ShuOsher(e, x) [] a = "wedge" -> Wedge(e, x) [] a = "jet" -> Jet(e, x)
(* field on the lower face along axis a of the cell at x; s is the state there *)
Field(e, a, x, s) ==
  LET q == Actual(e) IN
  CASE q = "implode" -> G(e, <<"Bx_", "By_", "Bz_">>[a] \o (IF s = Outer(e) THEN "outer" ELSE "inner"), Z)
    [] q = "blast" -> Half(One)
    [] q = "kelvin_helmholtz" -> IF a = 1 THEN Half(One) ELSE Z
    [] q = "rotor" -> IF a = 1 THEN G(e, "b0", Times(I(5), Iroot(By(Pi, 4)))) ELSE Z
    [] q = "orszag_tang" -> OtField(e, a, x)
    [] q = "field_loop" -> LoopField(e, a, x)
    [] q = "wave" -> WaveField(e, a, x)
(* mean over the two faces of a cell; there is one value along an axis which is not resolved *)
Centre(e, a, x, s) == IF a > e.dim THEN Field(e, a, x, s) ELSE Half(Plus(Field(e, a, x, s), Field(e, a, Next1(e, a, x), s)))
Kinetic(s) == Half(Times(s.d, Plus(R2(s.u, s.v), Sq(s.w))))
Magnetic(e, x, s) == IF e.mhd THEN Half(Plus(R2(Centre(e, 1, x, s), Centre(e, 2, x, s)), Sq(Centre(e, 3, x, s)))) ELSE Z
(* conserved densities of a state: density, energy, momentum *)
Densities(e, x, s) == [d |-> s.d, e |-> Plus(Plus(Div(s.p, Minus(e.g, One)), Kinetic(s)), Magnetic(e, x, s)),
                       u |-> Times(s.d, s.u), v |-> Times(s.d, s.v), w |-> Times(s.d, s.w)]
(* gravity at a position, for the problems which define one *)
Pull(e, x) == IF Actual(e) = "disk" THEN DiskPull(e, x) ELSE Gravity(e)
=============================================================================
