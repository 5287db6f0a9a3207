----------------------------- MODULE MCInitial -----------------------------
(* What Initial.tla says is a sound set of problems: admissible states, equal   *)
(* energies, continuity and balance where a problem promises them, solenoidal   *)
(* fields, single waves between the quadrants, eigenvectors of the MHD fluxes.  *)
EXTENDS Initial
RS == INSTANCE Riemann
CONSTANT Every
VARIABLES e, c
Base == [problem |-> "", dim |-> 2, mhd |-> FALSE, sdm |-> 0, n |-> <<5, 7, 6>>, lo |-> <<Z, Z, Z>>, hi |-> <<One, One, One>>, g |-> Dec(14, 1),
         p |-> <<>>, edge |-> 12, tol |-> 10]
Inst(problem, dim, mhd) == [Base EXCEPT !.problem = problem, !.dim = dim, !.mhd = mhd]
Around(x) == [x EXCEPT !.lo = <<Dec(-5, 1), Dec(-5, 1), Dec(-5, 1)>>, !.hi = <<Dec(5, 1), Dec(5, 1), Dec(5, 1)>>]
With(x, p) == [x EXCEPT !.p = p]
KH(x) == {With(x, [perturbation_sine_robertson |-> b, d_in |-> I(2), mode |-> 4]) : b \in {TRUE, FALSE}}
Flow == [d_outer |-> One, vx_outer |-> Dec(3, 1), vy_inner |-> Dec(-2, 1), vz_outer |-> Dec(1, 1), Bx_outer |-> Dec(3, 1), Bx_inner |-> Dec(3, 1)]
Instances ==
  UNION {{Inst("blast", d, m), With(Inst("implode", d, m), Flow), With(Inst("implode", d, m), [shape_region |-> 1])} \cup KH(Inst("kelvin_helmholtz", d, m))
         : d \in {2, 3}, m \in {FALSE, TRUE}}
  \cup {Around(Inst(q, d, FALSE)) : q \in {"gresho_vortex", "rayleigh_taylor", "rising_bubble", "disk"}, d \in {2, 3}}
  \cup {With(Inst("isentropic_vortex", 2, FALSE), [strength |-> I(2)])}
  \cup {With(Inst("four_quadrant", 2, FALSE), [config_number |-> k, x |-> Dec(5, 1), y |-> Dec(5, 1)]) : k \in 0 .. 18}
  \cup UNION {{With(Inst("orszag_tang", d, TRUE), [kt |-> Half(One)]), Inst("rotor", d, TRUE), With(Around(Inst("field_loop", d, TRUE)), [radius |-> Dec(3, 1)])} : d \in {2, 3}}
  \cup {[With(Inst("wave", 3, TRUE), [amplitude |-> Dec(1, 2), type |-> k]) EXCEPT !.hi = <<I(3), Dec(15, 1), Dec(15, 1)>>] : k \in 0 .. 3}
  \cup {[Inst(q, 2, FALSE) EXCEPT !.sdm = 3] : q \in {"sod", "shu_osher", "wedge", "jet"}}
Init == e \in Instances /\ c = <<0, 0, 0>>
Next == /\ c = <<0, 0, 0>>
        /\ c' \in {x \in (0 .. 4) \X (0 .. 6) \X (0 .. 5) : (e.dim = 2 => x[3] = 0) /\ (x[1] + 2 * x[2] + 3 * x[3]) % Every = 3 % Every}
        /\ UNCHANGED e
Once == c = <<0, 0, 0>>
X == Position(e, c, <<1, 1, 1>>)
A == Actual(e)
All == IF A = "wave" THEN {} ELSE States(e, X)
Eq(a, b) == Close(a, b, Plus(Plus(Mag(a), Mag(b)), Dec(1, 3)), 15)
Nearly(a, b, d) == Close(a, b, Plus(One, Plus(Mag(a), Mag(b))), d)
Admissible ==
  /\ All # {} \/ A = "wave"
  /\ \A s \in All : Pos(s.d) /\ Pos(s.p)
  /\ \A s \in All : LET u == Densities(e, X, s)
                        k == Half(Div(Plus(R2(u.u, u.v), Sq(u.w)), u.d))
                    IN  Eq(Times(Minus(e.g, One), Minus(Minus(u.e, k), Magnetic(e, X, s))), s.p)
  /\ A = "wave" => Pos(WaveDensities(e, X).d)
(* discrete divergence of the field of a cell *)
Solenoidal ==
  e.mhd /\ A # "implode" =>
    LET s == IF A = "wave" THEN Rest(Z, Z) ELSE CHOOSE t \in All : TRUE
        D(a) == Div(Minus(Field(e, a, Next1(e, a, X), s), Field(e, a, X, s)), Width(e, a))
    IN  Nearly(Plus(Plus(D(1), D(2)), IF e.dim = 3 THEN D(3) ELSE Z), Z, 15)
(* fluids at rest in gravity: the pressure carries the weight *)
Step == Dec(1, 4)
Shift(x, a, h) == [x EXCEPT ![a] = Plus(x[a], h)]
Hydrostatic ==
  A \in {"rayleigh_taylor", "rising_bubble"} =>
    \A a \in 1 .. e.dim :
      \A l \in States(e, Shift(X, a, Uminus(Step))), r \in States(e, Shift(X, a, Step)) :
        l.d = r.d => Eq(Minus(r.p, l.p), Times3(Times(l.d, By(Step, 2)), Gravity(e)[a], One))
(* vortices in balance: the pressure gradient carries the centripetal force; continuous at the seams *)
Balance ==
  /\ A = "gresho_vortex" /\ Once =>
       \A r \in {Dec(5, 2), Dec(15, 2), Dec(21, 2), Dec(3, 1), Dec(39, 2), Dec(5, 1)} :
         LET at(q) == CHOOSE s \in Gresho(e, <<q, Z, Z>>) : TRUE
             l == at(Minus(r, Step))  m == at(r)  h == at(Plus(r, Step))
         IN  Nearly(Minus(h.p, l.p), Div(Times3(By(Step, 2), m.d, Sq(m.v)), r), 6 + 3)
  /\ A = "gresho_vortex" /\ Once => \A r \in {Dec(2, 1), Dec(4, 1)} :
       LET S == Gresho(e, <<r, Z, Z>>) IN Cardinality(S) <= 2 /\ \A s, t \in S : Nearly(s.p, t.p, 15) /\ Nearly(s.v, t.v, 15)
  /\ A = "rotor" /\ Once => \A r \in {Dec(1, 1), Dec(115, 3)} :
       LET S == Rotor(e, <<Plus(Mid(e, 1), r), Mid(e, 2), Z>>) IN \A s, t \in S : Nearly(s.d, t.d, 15) /\ Nearly(s.v, t.v, 15)
  /\ A = "isentropic_vortex" => \A s \in All : Nearly(s.p, Power(s.d, e.g), 14)          \* the entropy is uniform
  /\ A = "disk" => \A s \in All : Nearly(Times(s.u, DiskAt(e, X)[1]), Uminus(Times(s.v, DiskAt(e, X)[2])), 14)   \* no radial motion
(* layers are symmetric about the middle *)
Layers ==
  A = "kelvin_helmholtz" =>
    LET y == [X EXCEPT ![e.dim] = Minus(One, X[e.dim])]
    IN  \A s \in All : \E t \in States(e, y) : Nearly(s.d, t.d, 14) /\ Nearly(s.u, t.u, 14)
(* quadrants of a Riemann problem: between neighbours a single wave (contact, rarefaction or shock) *)
Quad(k, q) == Configs[k + 1][q]
Wave(l, r, n, t) ==          \* states l, r; velocity n normal to and t along the interface
  LET dl == Dec(l.d, 4)  dr == Dec(r.d, 4)  pl == Dec(l.p, 4)  pr == Dec(r.p, 4)
      dv == Mag(Minus(Dec(n[1], 4), Dec(n[2], 4)))
      g == Dec(14, 1)
      contact == l.p = r.p /\ n[1] = n[2]
      same == t[1] = t[2]
      rare == /\ Close(Div(pl, pr), Power(Div(dl, dr), g), Max(One, Div(pl, pr)), 2)
              /\ Nearly(dv, Times(I(5), Times(Root(g), Mag(Minus(Root(Div(pl, dl)), Root(Div(pr, dr)))))), 3)
      rh == LET x == Div(Plus(Div(pl, pr), Dec(1666667, 7)), Plus(One, Times(Dec(1666667, 7), Div(pl, pr))))    \* mu^2 = 1/6
            IN  /\ Close(Div(dl, dr), x, Max(One, x), 2)
                /\ Nearly(Sq(dv), Div(Times(Minus(pl, pr), Minus(dl, dr)), Times(dl, dr)), 2)
  IN  (contact) \/ (same /\ (rare \/ rh))
Quadrants ==
  A = "four_quadrant" /\ Once =>
    LET k == e.p.config_number  q(i) == Quad(k, i)
    IN  /\ Wave(q(2), q(1), <<q(2).u, q(1).u>>, <<q(2).v, q(1).v>>)
        /\ Wave(q(3), q(4), <<q(3).u, q(4).u>>, <<q(3).v, q(4).v>>)
        /\ Wave(q(3), q(2), <<q(3).v, q(2).v>>, <<q(3).u, q(2).u>>)
        /\ Wave(q(4), q(1), <<q(4).v, q(1).v>>, <<q(4).u, q(1).u>>)
(* eigenvectors: the flux changes by speed times the densities *)
Speeds == <<I(-2), I(-1), Dec(-5, 1), One>>
Prim(eps, k, s) ==
  LET r(i) == Times(Times(eps, I(s)), Dec(Rev[k][i], 7))
      v0 == IF k = 4 THEN One ELSE Z
      d == Plus(One, r(1))
      mx == Plus(v0, r(2))  my == r(3)  mz == r(4)
      by == Plus(WaveB[2], r(6))  bz == Plus(WaveB[3], r(7))
      g == Div(I(5), I(3))
      en == Plus(Plus(Dec(9, 1), Half(Plus(Sq(v0), Plus(One, Plus(I(2), Dec(25, 2)))))), r(5))
      k2 == Half(Div(Plus(R2(mx, my), Sq(mz)), d))
      m2 == Half(Plus(One, R2(by, bz)))
  IN  [d |-> d, p |-> Times(Minus(g, One), Minus(Minus(en, k2), m2)), u |-> Div(mx, d), v |-> Div(my, d), w |-> Div(mz, d), a |-> One, b |-> by, c |-> bz]
Eigen ==
  A = "wave" /\ Once =>
    LET k == e.p.type + 1
        eps == Dec(1, 6)
        f == RS!Phys(Prim(eps, k, 1), [n |-> 5, d |-> 3])  h == RS!Phys(Prim(eps, k, -1), [n |-> 5, d |-> 3])
        d(i) == Div(Minus(f[i], h[i]), By(eps, 2))
    IN  \A i \in {<<1, 1>>, <<3, 2>>, <<4, 3>>, <<5, 4>>, <<2, 5>>} : Nearly(d(i[1]), Times(Speeds[k], Dec(Rev[k][i[2]], 7)), 5)
=============================================================================
