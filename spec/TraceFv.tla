----------------------------- MODULE TraceFv -----------------------------
(* Recorded runs judged by the structure of FiniteVolume.tla and Ct.tla.     *)
(*  cons: drift of the domain totals, 10^-13 of the total absolute content   *)
(*  div : fluxes through all low and high faces, 10^-9 of the largest        *)
(*  uni : extrema of the deviation from the uniform value, 10^-12 of scale   *)
(*  pos : smallest density / pressure of every step (sign preserved)         *)
EXTENDS TraceLib, FiniteSets
VARIABLE l
FV == INSTANCE FiniteVolume WITH NX <- 1, NY <- 1, Vals <- {0}, Kinds <- {}, Modes <- {},
        u <- 0, u0 <- 0, flux <- 0, todo <- 0, kind <- 0, mode <- 0
CT == INSTANCE Ct WITH NX <- 1, NY <- 1, NZ <- 1, EVals <- {}, MaxEdges <- 0, Two <- FALSE, B <- 0, k <- 0

JudgeCons(e) ==
  LET must == { v \in 1 .. Len(e.vars) : FV!MustConserve(e.vars[v], e.dim, e.bc, e.grav = 1, e.visc = 1, e.bn0 = 1) }
      bad == { <<k, v>> \in (1 .. Len(e.steps)) \X must : Abs(e.steps[k][v]) > e.tol }
  IN  IF must = {} THEN Reject(e.id, "nothing to check")
      ELSE IF bad # {} THEN LET b == CHOOSE x \in bad : \A y \in bad : x[1] <= y[1]
                            IN  Reject(e.id, <<"total not conserved", "step", b[1], "var", b[2], "drift e-13", e.steps[b[1]][b[2]]>>)
      ELSE TRUE

(* the upper face of a cell on a non-periodic upper boundary is set by the   *)
(* boundary condition, not by the scheme: such cells are not constrained     *)
Covered(e, i, j, l3) == /\ (i = e.size[1] - 1 => FV!Periodic(e.bc, 1))
                        /\ (j = e.size[2] - 1 => FV!Periodic(e.bc, 2))
                        /\ (e.dim = 3 /\ l3 = e.size[3] - 1 => FV!Periodic(e.bc, 3))
JudgeDiv(e) ==
  LET cells == (0 .. e.size[1] - 1) \X (0 .. e.size[2] - 1) \X (0 .. e.size[3] - 1)
      bad(k) == { c \in cells : Covered(e, c[1], c[2], c[3])
                   /\ Abs(CT!RecordedDiv(e.steps[k], e.size, e.dim, c[1], c[2], c[3])) > e.tol }
      bs == { k \in 1 .. Len(e.steps) : bad(k) # {} }
  IN  IF bs = {} THEN TRUE
      ELSE LET k == CHOOSE x \in bs : \A y \in bs : x <= y
           IN  Reject(e.id, <<"divergence", "step", k, "cells", Cardinality(bad(k)), CHOOSE c \in bad(k) : TRUE>>)

JudgeUni(e) ==
  LET bad == { <<k, v>> \in (1 .. Len(e.steps)) \X (1 .. Len(e.vars)) :
                 Abs(e.steps[k][v][1]) > e.tol \/ Abs(e.steps[k][v][2]) > e.tol }
  IN  IF bad = {} THEN TRUE
      ELSE LET b == CHOOSE x \in bad : \A y \in bad : x[1] <= y[1]
           IN  Reject(e.id, <<"uniform state changed", "step", b[1], "var", b[2], "deviation e-12", e.steps[b[1]][b[2]]>>)

JudgePos(e) ==
  LET bad == { k \in 1 .. Len(e.steps) : ~(e.steps[k].fin = 1 /\ e.steps[k].rho > 0 /\ e.steps[k].p > 0 /\ e.steps[k].dt > 0) }
  IN  IF bad = {} THEN TRUE
      ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
           IN  Reject(e.id, <<"not positive", "step", k, e.steps[k]>>)

Judge(e) == IF Len(e.steps) < e.want THEN Reject(e.id, <<"steps", Len(e.steps), e.want>>)
            ELSE CASE e.ev = "cons" -> JudgeCons(e)
                   [] e.ev = "div" -> JudgeDiv(e)
                   [] e.ev = "uni" -> JudgeUni(e)
                   [] e.ev = "pos" -> JudgePos(e)

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
