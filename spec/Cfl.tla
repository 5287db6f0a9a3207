-------------------------------- MODULE Cfl --------------------------------
(* The step limit.  A fluid cell is a record of integers; its signal speeds  *)
(* are given by the defining relations of sound and fast magnetosonic waves  *)
(* (checked, not computed: no square roots), in units of 1/4.                *)
(*   gamma = 3/2;  U = 4 (speeds are integers / U)                           *)
EXTENDS Integers, Sequences, FiniteSets
U == 4
Abs(x) == IF x < 0 THEN -x ELSE x
(* ---- hydrodynamics: [r, p, c, v]; c is the speed of sound *)
IsSound(s) == 2 * s.r * s.c * s.c = 3 * s.p * U * U
Hydro == <<
  [r |-> 6,  p |-> 1,  c |-> 2,  v |-> <<0, 0, 0>>],      \* slow background
  [r |-> 6,  p |-> 16, c |-> 8,  v |-> <<1, -2, 3>>],
  [r |-> 24, p |-> 1,  c |-> 1,  v |-> <<9, 2, -1>>],     \* fast flow along each axis, cold
  [r |-> 24, p |-> 1,  c |-> 1,  v |-> <<-2, -9, 1>>],
  [r |-> 6,  p |-> 1,  c |-> 2,  v |-> <<1, 2, 10>>],
  [r |-> 3,  p |-> 8,  c |-> 8,  v |-> <<-3, -3, -3>>],   \* light
  [r |-> 3,  p |-> 18, c |-> 12, v |-> <<0, 1, 0>>],      \* hot
  [r |-> 96, p |-> 4,  c |-> 1,  v |-> <<4, -5, 6>>],     \* dense
  [r |-> 6,  p |-> 100, c |-> 20, v |-> <<8, 8, 8>>] >>   \* fastest: fills ghosts and stale buffers
(* ---- magnetohydrodynamics with the field b along axis ax: [r, p, f, v]; f[d] the fast speed along d: *)
(* the larger root of  f^4 - (b^2/r + a^2) f^2 + a^2 b_d^2 / r = 0,  a^2 = 3p/(2r)  *)
Bd(b, ax, d) == IF d = ax THEN b ELSE 0
IsFast(s, b, ax) ==
  \A d \in 1 .. 3 :
    LET f2 == s.f[d] * s.f[d]                     \* / U^2
        S == (2 * b * b + 3 * s.p) * U * U        \* 2 r (b^2/r + a^2), / U^2 removed
    IN  /\ 2 * s.r * f2 * f2 = f2 * S - (IF d = ax THEN (3 * s.p * b * b * U * U * U * U) \div s.r ELSE 0)
        /\ (d # ax \/ (3 * s.p * b * b * U * U * U * U) % s.r = 0)
        /\ 4 * s.r * f2 >= S                      \* the larger root
(* b = 8: across: r f^2 = b^2 + 3p/2; along: max(alfven, sound) *)
Field == 8
Mhd(ax) == LET F(a, c) == [d \in 1 .. 3 |-> IF d = ax THEN a ELSE c] IN <<
  [r |-> 16, p |-> 24, f |-> F(8, 10), v |-> <<0, 0, 0>>],     \* alfven 2, sound 3/2: across 5/2
  [r |-> 4, p |-> 24, f |-> F(16, 20), v |-> <<1, -1, 2>>],    \* 4, 3 -> 5
  [r |-> 16, p |-> 24, f |-> F(8, 10), v |-> <<9, 1, -1>>],
  [r |-> 16, p |-> 24, f |-> F(8, 10), v |-> <<-2, -9, 1>>],
  [r |-> 16, p |-> 24, f |-> F(8, 10), v |-> <<1, 2, 9>>],
  [r |-> 64, p |-> 24, f |-> F(4, 5), v |-> <<6, -7, 6>>],     \* dense
  [r |-> 16, p |-> 150, f |-> F(15, 17), v |-> <<0, 3, 1>>],   \* sound dominates along the field
  [r |-> 1, p |-> 24, f |-> F(32, 40), v |-> <<16, 16, 16>>] >>
(* ---- the limit: sum over directions of speed times inverse cell size (SDM: N points per cell) *)
Speed(s, mhd, d) == (IF mhd THEN s.f[d] ELSE s.c) + Abs(s.v[d])
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
Weight(s, mhd, dim, inv, N) == LET F(d) == Speed(s, mhd, d) * inv[d] * N IN SumTo(F, dim)          \* / U
(* static gravity, total |g|: g dt^2/2 + u dt = cfl h with u the sum of the speeds and h the smallest cell size;  *)
(* with q^2 = 1 + 2 g cfl h / u^2 the limit is dt = 2 cfl h / (u (1 + q)); q in halves                            *)
SumSpeed(s, dim) == LET F(d) == Speed(s, FALSE, d) IN SumTo(F, dim)
IsGrav(s, q, g, dim, cn, cd, invh) == 32 * g * cn = (q * q - 4) * SumSpeed(s, dim) * SumSpeed(s, dim) * cd * invh   \* g / 4
WeightG(s, q, dim, invh) == SumSpeed(s, dim) * (2 + q) * invh                                     \* / (4 U)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
ASSUME \A i \in DOMAIN Hydro : IsSound(Hydro[i])
ASSUME \A ax \in 1 .. 3 : \A i \in DOMAIN Mhd(ax) : IsFast(Mhd(ax)[i], Field, ax)
=============================================================================
