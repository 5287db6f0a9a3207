------------------------------- MODULE Params -------------------------------
(* What a settings document means: the scheme, its numerics and the grid.     *)
(* A document maps every key to a sequence of at most one value; numbers are   *)
(* integers or fixed point numbers (module Fixed), choices are strings.  Small *)
(* floors are measured in units of 2^-20 (density, sound speed), 2^-40         *)
(* (pressure) and 2^-60 (their product).                                       *)
EXTENDS Fixed
Get(d, k, default) == IF d[k] = <<>> THEN default ELSE d[k][1]
(* the schemes: dimension, magnetic field, number of solution points per cell and direction *)
Scheme(dim, mhd, deg, gw) == [dim |-> dim, mhd |-> mhd, deg |-> deg, gw |-> gw, sdm |-> gw = 1,
                              nbvar |-> IF mhd THEN 8 ELSE dim + 2]
Degrees == [d2 |-> {1, 2, 3, 4, 5, 6}, d3 |-> {2, 3, 4}]
SdmName(dim, n) == "Hydro_SDM_" \o ToString(dim) \o "D_degree" \o ToString(n)
Muscl == {"Hydro_Muscl_2D", "Hydro_Muscl_3D", "MHD_Muscl_2D", "MHD_Muscl_3D"}
Sdm == {SdmName(2, n) : n \in Degrees.d2} \cup {SdmName(3, n) : n \in Degrees.d3}
Schemes == Muscl \cup Sdm
SchemeOf(name) ==
  CASE name = "Hydro_Muscl_2D" -> Scheme(2, FALSE, 1, 2)
    [] name = "Hydro_Muscl_3D" -> Scheme(3, FALSE, 1, 2)
    [] name = "MHD_Muscl_2D" -> Scheme(2, TRUE, 1, 3)
    [] name = "MHD_Muscl_3D" -> Scheme(3, TRUE, 1, 3)
    [] name \in Sdm -> CHOOSE s \in {Scheme(d, FALSE, n, 1) : d \in {2, 3}, n \in 1 .. 6} : name = SdmName(s.dim, s.deg)
(* choices *)
RiemannNames == {"approx", "llf", "hll", "hllc", "hlld"}
ForMhd == {"llf", "hll", "hlld"}
ForHydro == {"approx", "llf", "hll", "hllc"}
RiemannOf(d, mhd) ==
  LET n == Get(d, "riemann", "approx")
      k == IF n \in RiemannNames THEN n ELSE "approx"
  IN  IF mhd THEN IF k \in ForMhd THEN k ELSE "hlld"
      ELSE IF k \in ForHydro THEN k ELSE "approx"
RiemannCode(n) == CASE n = "approx" -> 0 [] n = "llf" -> 1 [] n = "hll" -> 2 [] n = "hllc" -> 3 [] n = "hlld" -> 4
ImplOf(d, mhd) ==
  LET v == Get(d, "impl", 0) IN IF v \in {0, 1} \/ (v = 2 /\ mhd) THEN v ELSE 0
SlopeOf(d) == LET v == Get(d, "slope", I(1)) IN IF v \in {O, I(1), I(2)} THEN v ELSE I(1)
Faces == <<"bxmin", "bxmax", "bymin", "bymax", "bzmin", "bzmax">>
Least == <<0, 0, 0, 0, 1, 485, 7600, 0, 0, 0>>          \* 10^-10 in units of 2^-20
Dec(n, k) == Tenth(I(n), k)
Extent(d, lo, hi, n, m) == Div(Minus(Get(d, hi, I(1)), Get(d, lo, O)), I(n * m))
(* counts and choices *)
Whole(d) ==
  LET s == SchemeOf(d.solver)
      nx == Get(d, "nx", 1)  ny == Get(d, "ny", 1)  nz == Get(d, "nz", 1)
      no == Get(d, "noutput", 100)
  IN [dim |-> s.dim, mhd |-> s.mhd, nbvar |-> s.nbvar, gw |-> s.gw,
      nx |-> nx, ny |-> ny, nz |-> nz,
      isize |-> nx + 2 * s.gw, jsize |-> ny + 2 * s.gw, ksize |-> nz + 2 * s.gw,
      bc |-> TLCEval([i \in 1 .. 6 |-> Get(d, Faces[i], 1)]),
      nstepmax |-> Get(d, "nstepmax", 1000), noutput |-> no, nlog |-> Get(d, "nlog", 10), output |-> no # 0,
      iorder |-> Get(d, "iorder", 2), niter |-> Get(d, "niter", 10),
      riemann |-> RiemannCode(RiemannOf(d, s.mhd)), impl |-> ImplOf(d, s.mhd)]
(* measures; m: processes along each axis *)
Real(d, m) ==
  LET nx == Get(d, "nx", 1)  ny == Get(d, "ny", 1)  nz == Get(d, "nz", 1)
      g == Get(d, "gamma0", Dec(14, 1))
      c == Get(d, "smallc", Least)
      r == Get(d, "smallr", Least)
      p == Div(Sq(c), g)
  IN [xmin |-> Get(d, "xmin", O), ymin |-> Get(d, "ymin", O), zmin |-> Get(d, "zmin", O),
      xmax |-> Get(d, "xmax", I(1)), ymax |-> Get(d, "ymax", I(1)), zmax |-> Get(d, "zmax", I(1)),
      dx |-> Extent(d, "xmin", "xmax", nx, m[1]), dy |-> Extent(d, "ymin", "ymax", ny, m[2]),
      dz |-> Extent(d, "zmin", "zmax", nz, m[3]),
      tend |-> Get(d, "tend", O), gamma0 |-> g, gamma6 |-> Div(Plus(g, I(1)), By(g, 2)),
      cfl |-> Get(d, "cfl", Dec(5, 1)), slope |-> SlopeOf(d),
      smallr |-> r, smallc |-> c, smallp |-> p, smallpp |-> Times(r, p),
      cp |-> Get(d, "cp", O), mu |-> Get(d, "mu", O), kappa |-> Get(d, "kappa", O)]
(* what ends a run before it starts *)
Fits(d, m, np) == /\ d.solver \in Schemes
                  /\ m[1] >= 1 /\ m[2] >= 1 /\ m[3] >= 1
                  /\ np = m[1] * m[2] * (IF SchemeOf(d.solver).dim = 3 THEN m[3] ELSE 1)
(* what a snapshot of the scheme shows *)
Fields(s) == SubSeq(IF s.mhd THEN <<"rho", "energy", "rho_vx", "rho_vy", "rho_vz", "bx", "by", "bz">>
                    ELSE <<"rho", "energy", "rho_vx", "rho_vy", "rho_vz">>, 1, s.nbvar)
Container(s) == IF s.sdm THEN "UnstructuredGrid" ELSE "ImageData"
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Values(s, nx, ny, nz) == nx * ny * (IF s.dim = 3 THEN nz ELSE 1) * Power(s.deg, s.dim)
=============================================================================
