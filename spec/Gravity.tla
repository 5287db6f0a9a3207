------------------------------ MODULE Gravity ------------------------------
(* Static gravity on a ring of cells: a flux update with ARBITRARY fluxes of *)
(* mass and momentum, then in every cell                                     *)
(*    momentum += g (old density + new density) / 2 * dt                     *)
(*    energy   += kinetic energy after - kinetic energy before               *)
(* Units: dt / 2 = 1.  Energies are kept times 2 rho as integers.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Fluxes, Gs
C == 0 .. N - 1
VARIABLES rho, rho0, m, mstar, g, todo, work, uniform, steps, v0
gvars == <<rho, rho0, m, mstar, g, todo, work, uniform, steps, v0>>
(* what the code must do, also used on recorded steps *)
Impulse(k, S) == k * S                                     \* k: gravity, S: old + new density
Kick(c) == Impulse(g[c], rho0[c] + rho[c])
(* twice the density times the work: after^2 - before^2 = delta (2 after - delta) *)
Work2(delta, after) == delta * (2 * after - delta)
Sum(f) == LET RECURSIVE S(_)
              S(D) == IF D = {} THEN 0 ELSE LET c == CHOOSE x \in D : TRUE IN f[c] + S(D \ {c})
          IN S(C)
Init == /\ uniform \in BOOLEAN
        /\ IF uniform THEN rho = [c \in C |-> 2] /\ \E x \in Gs : g = [c \in C |-> x]
                      ELSE rho \in [C -> {2, 3}] /\ g \in [C -> Gs]
        /\ rho0 = rho /\ m = [c \in C |-> 1] /\ mstar = m /\ todo = "flux" /\ work = [c \in C |-> 0] /\ steps = 0
        /\ v0 = 1
Flux == /\ todo = "flux" /\ steps < 2
        /\ \E F \in [C -> Fluxes], H \in [C -> Fluxes] :
             /\ uniform => \A c, d \in C : F[c] = F[d] /\ H[c] = H[d]
             /\ rho' = [c \in C |-> rho[c] + F[c] - F[(c + 1) % N]]
             /\ mstar' = [c \in C |-> m[c] + H[c] - H[(c + 1) % N]]
        /\ \A c \in C : rho'[c] > 0
        /\ rho0' = rho /\ todo' = "source" /\ UNCHANGED <<m, g, work, uniform, steps, v0>>
Source == /\ todo = "source"
          /\ m' = [c \in C |-> mstar[c] + Kick(c)]
          /\ work' = [c \in C |-> Work2(Kick(c), mstar[c] + Kick(c))]
          /\ todo' = "done" /\ UNCHANGED <<rho, rho0, mstar, g, uniform, steps, v0>>
Again == todo = "done" /\ todo' = "flux" /\ steps' = steps + 1 /\ UNCHANGED <<rho, rho0, m, mstar, g, work, uniform, v0>>
Next == Flux \/ Source \/ Again
Spec == Init /\ [][Next]_gvars
(* the totals tell the source apart from any flux *)
TotalImpulse == todo = "done" => Sum(m) - Sum(mstar) = Sum([c \in C |-> Kick(c)])
FluxesCancel == todo \in {"source", "done"} => Sum(rho) = Sum(rho0)
KineticWork == todo = "done" => \A c \in C : work[c] = m[c] * m[c] - mstar[c] * mstar[c]
NoGravityNoChange == (todo = "done" /\ \A c \in C : g[c] = 0) => m = mstar /\ \A c \in C : work[c] = 0
FreeFall == (uniform /\ todo = "flux") => \A c \in C : m[c] = rho[c] * (2 * g[c] * steps) + v0
=============================================================================
