------------------------------ MODULE Operator ------------------------------
(* Flows whose density, pressure and velocities are polynomials of position,   *)
(* the divergence of their fluxes, their viscous stress, and time steps of the *)
(* Runge-Kutta methods for flows that only move (uniform velocity, pressure).   *)
(* For what degrees a spectral difference cell with n values per direction      *)
(* represents all of it exactly.                                                *)
EXTENDS Polynomial
Vars(dim) == 1 .. dim + 2                    \* density, energy, momenta
(* ------------------------------------------------------- inviscid fluxes *)
(* q: r density, p pressure, u velocities; g1 = 1 / (gamma - 1) *)
RECURSIVE SquaresIn(_, _)
SquaresIn(u, d) == IF d = 0 THEN PolyZero ELSE PPlus(PTimes(u[d], u[d]), SquaresIn(u, d - 1))
Energy(q, dim, g1) == PPlus(PScale(q.p, g1), PScale(PTimes(q.r, SquaresIn(q.u, dim)), Half(I(1))))
Conserved(q, dim, g1) == TLCEval([v \in Vars(dim) |-> Trim(CASE v = 1 -> q.r [] v = 2 -> Energy(q, dim, g1) [] OTHER -> PTimes(q.r, q.u[v - 2]))])
EulerFlux(q, U, dim, d) ==
  TLCEval([v \in Vars(dim) |-> Trim(CASE v = 1 -> U[2 + d]
                                    [] v = 2 -> PTimes(PPlus(U[2], q.p), q.u[d])
                                    [] OTHER -> IF v = 2 + d THEN PPlus(PTimes(U[v], q.u[d]), q.p) ELSE PTimes(U[v], q.u[d]))])
Fluxes(q, U, dim) == TLCEval([d \in 1 .. dim |-> EulerFlux(q, U, dim, d)])
RECURSIVE DivIn(_, _, _)
DivIn(Fl, v, d) == IF d = 0 THEN PolyZero ELSE PPlus(PDiff(Fl[d][v], d), DivIn(Fl, v, d - 1))
Divergence(Fl, dim) == TLCEval([v \in Vars(dim) |-> Trim(DivIn(Fl, v, dim))])
(* ----------------------------------------------------------------- viscosity *)
RECURSIVE DivU(_, _)
DivU(u, d) == IF d = 0 THEN PolyZero ELSE PPlus(PDiff(u[d], d), DivU(u, d - 1))
(* stress on a face across a, along b: symmetric and free of trace *)
Stress(u, dim, mu, a, b) ==
  LET s == PPlus(PDiff(u[b], a), PDiff(u[a], b))
      t == IF a = b THEN PMinus(s, PScale(DivU(u, dim), Over(I(2), dim))) ELSE s
  IN  Trim(PScale(t, mu))
Stresses(u, dim, mu) == TLCEval([a \in 1 .. dim |-> TLCEval([b \in 1 .. dim |-> Stress(u, dim, mu, a, b)])])
RECURSIVE Work(_, _, _, _)
Work(u, T, a, b) == IF b = 0 THEN PolyZero ELSE PPlus(PTimes(u[b], T[a][b]), Work(u, T, a, b - 1))
ViscousFlux(u, T, dim, a) ==
  TLCEval([v \in Vars(dim) |-> Trim(CASE v = 1 -> PolyZero [] v = 2 -> Work(u, T, a, dim) [] OTHER -> T[a][v - 2])])
ViscousFluxes(u, dim, mu) == LET T == Stresses(u, dim, mu) IN TLCEval([a \in 1 .. dim |-> ViscousFlux(u, T, dim, a)])
(* ---------------------------------------------- what n values can represent *)
Fits(f, dim, m) == \A d \in 1 .. dim : Degree(f, d) <= m
EulerExact(U, Fl, dim, n, v) == (\A w \in Vars(dim) : Fits(U[w], dim, n - 1)) /\ (\A d \in 1 .. dim : Degree(Fl[d][v], d) <= n)
ViscousExact(q, U, Fl, dim, n, v) ==
  /\ \A w \in Vars(dim) : w # 2 => Fits(U[w], dim, n - 1)
  /\ \A d \in 1 .. dim : Fits(q.u[d], dim, n - 1)
  /\ \A d \in 1 .. dim : Degree(Fl[d][v], d) <= n
(* ------------------------------------------------------ Runge-Kutta methods *)
(* each stage: start, previous stages and increments h L(stage), with weights;  *)
(* for a linear L the new state is a polynomial of h L: its coefficients         *)
Fraction(x, y) == Div(I(x), I(y))
Digits15(a, b, c) == Plus(Tenth(I(a), 5), Plus(Tenth(I(b), 10), Tenth(I(c), 15)))        \* 0.aaaaabbbbbccccc
St(from, incr) == [from |-> from, incr |-> incr]  \* both: sequences of <<stage, weight>>; stage 1 is the start
Methods == {"euler", "ssp2", "ssp3", "ssp54"}
Tableau == [
  euler |-> << St(<<<<1, I(1)>>>>, <<<<1, I(1)>>>>) >>,
  ssp2  |-> << St(<<<<1, I(1)>>>>, <<<<1, I(1)>>>>),
               St(<<<<1, Half(I(1))>>, <<2, Half(I(1))>>>>, <<<<2, Half(I(1))>>>>) >>,
  ssp3  |-> << St(<<<<1, I(1)>>>>, <<<<1, I(1)>>>>),
               St(<<<<1, Fraction(3, 4)>>, <<2, Fraction(1, 4)>>>>, <<<<2, Fraction(1, 4)>>>>),
               St(<<<<1, Fraction(1, 3)>>, <<3, Fraction(2, 3)>>>>, <<<<3, Fraction(2, 3)>>>>) >>,
  ssp54 |-> << St(<<<<1, I(1)>>>>, <<<<1, Digits15(39175, 22265, 71890)>>>>),
               St(<<<<1, Digits15(44437, 4936, 51235)>>, <<2, Digits15(55562, 95063, 48765)>>>>, <<<<2, Digits15(36841, 5930, 50371)>>>>),
               St(<<<<1, Digits15(62010, 18514, 88403)>>, <<3, Digits15(37989, 81485, 11597)>>>>, <<<<3, Digits15(25189, 17742, 71694)>>>>),
               St(<<<<1, Digits15(17807, 99543, 93132)>>, <<4, Digits15(82192, 456, 6868)>>>>, <<<<4, Digits15(54497, 47502, 28521)>>>>),
               St(<<<<3, Digits15(51723, 16719, 70585)>>, <<4, Digits15(9605, 97105, 26147)>>, <<5, Digits15(38670, 86175, 3269)>>>>,
                  <<<<4, Digits15(6369, 24686, 66290)>>, <<5, Digits15(22600, 74832, 36906)>>>>) >> ]
Order == [euler |-> 1, ssp2 |-> 2, ssp3 |-> 3, ssp54 |-> 4]
Stages(m) == Len(Tableau[m])
RECURSIVE MixIn(_, _, _, _, _)
MixIn(parts, S, k, shift, i) ==            \* coefficient k of the weighted sum of stage polynomials
  IF i > Len(parts) THEN O
  ELSE LET p == S[parts[i][1]]
           c == IF k - shift \in DOMAIN p THEN p[k - shift] ELSE O
       IN  Plus(Times(parts[i][2], c), MixIn(parts, S, k, shift, i + 1))
RECURSIVE StagesIn(_, _, _)
StagesIn(T, S, i) ==
  IF i > Len(T) THEN S[Len(S)]
  ELSE StagesIn(T, Append(S, TLCEval([k \in 1 .. Len(T) + 1 |-> Plus(MixIn(T[i].from, S, k, 0, 1), MixIn(T[i].incr, S, k, 1, 1))])), i + 1)
(* coefficients of 1, hL, (hL)^2, ... *)
Growth(m) == StagesIn(Tableau[m], <<[k \in 1 .. Len(Tableau[m]) + 1 |-> IF k = 1 THEN I(1) ELSE O]>>, 1)
(* a flow of uniform velocity and pressure: its density moves; (hL)^k applied to it *)
RECURSIVE AdvectIn(_, _, _)
AdvectIn(f, u, d) == IF d = 0 THEN PolyZero ELSE PPlus(PScale(PDiff(f, d), u[d]), AdvectIn(f, u, d - 1))
RECURSIVE MovedIn(_, _, _, _, _, _)
MovedIn(f, u, dim, dt, G, k) ==
  IF k > Len(G) THEN PolyZero
  ELSE PPlus(PScale(f, G[k]), MovedIn(Trim(PScale(AdvectIn(f, u, dim), Uminus(dt))), u, dim, dt, G, k + 1))
Moved(f, u, dim, dt, m) == Trim(MovedIn(f, u, dim, dt, Growth(m), 1))
=============================================================================
