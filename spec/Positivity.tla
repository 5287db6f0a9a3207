----------------------------- MODULE Positivity -----------------------------
(* Why a step within the limit keeps densities positive: a cell loses        *)
(* through each face at most rho * speed * (dt/dx) and the step obeys        *)
(* dt * sum of speeds / dx <= 1.  Arbitrary donor-cell fluxes on a ring of   *)
(* cells, all fluxes that respect the limit; and the reverse check that a    *)
(* step twice too large loses positivity (the limit is not vacuous).         *)
EXTENDS Integers, FiniteSets
CONSTANTS Cells, Rho, S, Limit
(* dt*speed/dx is w/S for face weights w in 0..Limit on each side            *)
VARIABLES rho, w, done
pvars == <<rho, w, done>>
I == 0 .. Cells - 1
R(i) == (i + 1) % Cells
L(i) == (i + Cells - 1) % Cells
Init == /\ rho \in [I -> Rho]
        /\ w \in [I -> (0 - Limit) .. Limit]      \* face i between i and R(i), signed speed
        /\ done = FALSE
Up(i) == IF w[i] > 0 THEN rho[i] * w[i] ELSE rho[R(i)] * w[i]
Out(i) == (IF w[i] > 0 THEN w[i] ELSE 0) + (IF w[L(i)] < 0 THEN 0 - w[L(i)] ELSE 0)
Step == ~done /\ rho' = [i \in I |-> rho[i] * S - Up(i) + Up(L(i))] /\ done' = TRUE /\ w' = w
Spec == Init /\ [][Step]_pvars
WithinLimit == \A i \in I : Out(i) < S
Positive == (done /\ WithinLimit) => \A i \in I : rho[i] > 0
Sharp == ~(done /\ \E i \in I : rho[i] <= 0)      \* violated when Limit is too large
=============================================================================
