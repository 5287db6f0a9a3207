---------------------------- MODULE TraceGravity ----------------------------
(* Recorded steps with static gravity.  cells: <<k1 .. kdim, S, A1 .. Adim, B>> of every cell with gravity k/4:  *)
(*  S old + new density, Ad = S * new velocity, B = S^2 dt / (16 new density), one unit;                         *)
(*  imp: change of the total momentum over dt/8, ene: change of the total energy over dt/8, mass: of the mass.  *)
EXTENDS TraceLib, FiniteSets
VARIABLE l
Gr == INSTANCE Gravity WITH N <- 1, Fluxes <- {0}, Gs <- {0}, rho <- 0, rho0 <- 0, m <- 0, mstar <- 0, g <- 0, todo <- 0, work <- 0,
        uniform <- 0, steps <- 0, v0 <- 0
L == INSTANCE Limbs
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
Step(e) ==
  LET n == Len(e.cells)
      want(d) == LET F(c) == Gr!Impulse(e.cells[c][d], e.cells[c][e.dim + 1]) IN SumTo(F, n)
      work == LET F(c) == LET W(d) == e.cells[c][d] * e.cells[c][e.dim + 1 + d] - e.cells[c][d] * e.cells[c][d] * e.cells[c][2 * e.dim + 2]
                          IN SumTo(W, e.dim)
              IN SumTo(F, n)
      slack == LET F(c) == LET W(d) == Abs(e.cells[c][d]) * (1 + Abs(e.cells[c][d])) IN SumTo(W, e.dim) IN e.tol + SumTo(F, n)
      bad == { d \in 1 .. e.dim : ~Near(e.imp[d], want(d), slack) }
  IN  CASE bad # {} -> LET d == CHOOSE x \in bad : TRUE IN <<"momentum gained", e.imp[d], "gravity gives", want(d), "axis", d>>
        [] ~Near(e.ene, work, slack) -> <<"energy gained", e.ene, "work of gravity", work>>
        [] Abs(e.mass) > e.tol -> <<"mass changed", e.mass>>
        [] OTHER -> <<>>
(* uniform fluid in uniform gravity k/4 after time t: velocity gained over t/4, lowest and highest cell, in e-9 *)
Fall(e) ==
  LET bad == { d \in 1 .. e.dim : \E x \in {1, 2} : ~Near(e.gain[d][x], e.k[d] * 100000000, e.tol) }
  IN  IF bad # {} THEN <<"free fall", e.gain, e.k>> ELSE IF \E x \in {1, 2, 3, 4} : Abs(e.dev[x]) > e.tol THEN <<"fluid changed while falling", e.dev>> ELSE <<>>
Same(e) == IF \A v \in 1 .. Len(e.diff) : e.diff[v] <= e.tol THEN <<>> ELSE <<"zero gravity changes the result", e.diff>>
(* the field set up by the initial condition, every cell with ghosts: uniform k/4, or a softened point source:   *)
(* positions a/2, softening s/2, g_d = - GM x_d / (x^2 + soft^2)^(3/2)                                            *)
Uniform(e) == IF e.lo = e.k /\ e.hi = e.k THEN <<>> ELSE <<"gravity field", e.lo, e.hi, "wanted", e.k>>
Point(e) ==
  LET ok(c) ==
        LET a == c.a
            n == SumTo(LAMBDA d : a[d] * a[d], Len(a)) + e.soft * e.soft
            have(d) == L!Scale(L!Scale(L!Scale(c.g2[d], n), n), n)
            want(d) == L!Scale(L!Scale(L!Norm(<<0, 0, 0, 1, 0, 0, 0>>), 16 * e.gm * e.gm), a[d] * a[d])
        IN  \A d \in 1 .. e.dim : /\ L!NearL(have(d), want(d), L!Add(L!Scale(L!Small(7, n * n), n), L!Scale(L!Small(7, 320 * e.gm * e.gm), n)))
                                  /\ (a[d] # 0 => c.sg[d] = (IF a[d] > 0 THEN -1 ELSE 1))
      bad == { i \in 1 .. Len(e.pts) : ~ok(e.pts[i]) }
  IN  IF bad = {} THEN <<>> ELSE <<"point source", e.pts[CHOOSE i \in bad : TRUE]>>
Judge(e) == LET w == CASE e.ev = "step" -> Step(e) [] e.ev = "fall" -> Fall(e) [] e.ev = "same" -> Same(e)
                       [] e.ev = "uniform" -> Uniform(e) [] e.ev = "point" -> Point(e)
            IN IF w = <<>> THEN TRUE ELSE Reject(e.id, w)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
