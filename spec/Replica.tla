------------------------------- MODULE Replica -------------------------------
(* One conservative computation on a line of cells, run                      *)
(*  - by processes that own blocks, exchange halos, agree on the step by a   *)
(*    global minimum, and apply face fluxes in ANY order to a second buffer; *)
(*  - by the reference (one process, all faces at once: Mono).               *)
(* Replicas are equal to the reference at every common step, whatever the    *)
(* decomposition, interleaving, order of the faces or variant of the update. *)
EXTENDS Relation, TLC
CONSTANTS N, Vals, MaxStep, Cuts, BCKinds, Variants
VARIABLES init, mono, np, bc, var, old, new, left, right, dt, pc, it, todo, dts
rvars == <<init, mono, np, bc, var, old, new, left, right, dt, pc, it, todo, dts>>

Cells == 0 .. N - 1
Flux(a, b) == (a - b) * (1 + a * b)
GhostL(s, b) == IF b = "periodic" THEN s[N - 1] ELSE s[0]
GhostR(s, b) == IF b = "periodic" THEN s[0] ELSE s[N - 1]

(* the reference *)
MonoDt(s) == LET L == { s[i] : i \in Cells } IN 1 + ((CHOOSE m \in L : \A x \in L : x <= m) % 2)
MonoStep(s, b) ==
  LET v(i) == IF i < 0 THEN GhostL(s, b) ELSE IF i >= N THEN GhostR(s, b) ELSE s[i]
  IN  [i \in Cells |-> s[i] + MonoDt(s) * (Flux(v(i - 1), s[i]) - Flux(s[i], v(i + 1)))]
RECURSIVE Hist(_, _, _)      \* the reference history: states 0 .. k
Hist(s, b, k) == IF k = 0 THEN <<s>> ELSE LET h == Hist(s, b, k - 1) IN Append(h, MonoStep(h[k], b))

Size == N \div np
Own(p) == p * Size .. (p + 1) * Size - 1
Procs == 0 .. np - 1
FacesOf(p) == p * Size .. (p + 1) * Size        \* face f separates cells f-1 and f

Init ==
  /\ init \in [Cells -> Vals] /\ np \in Cuts /\ bc \in BCKinds /\ var \in Variants
  /\ mono = Hist(init, bc, MaxStep)
  /\ old = [p \in Procs |-> [i \in Own(p) |-> init[i]]]
  /\ new = old
  /\ left = [p \in Procs |-> -99] /\ right = [p \in Procs |-> -99]
  /\ dt = [p \in Procs |-> 0] /\ pc = [p \in Procs |-> "dt"] /\ it = [p \in Procs |-> 0]
  /\ todo = [p \in Procs |-> {}] /\ dts = [p \in Procs |-> <<>>]

(* collective: all processes are at the reduction *)
Reduce ==
  /\ \A p \in Procs : pc[p] = "dt" /\ it[p] < MaxStep
  /\ LET
         mx == CHOOSE x \in UNION { { old[p][i] : i \in Own(p) } : p \in Procs } :
                 \A y \in UNION { { old[p][i] : i \in Own(p) } : p \in Procs } : y <= x
     IN  dt' = [p \in Procs |-> 1 + (mx % 2)]
  /\ pc' = [p \in Procs |-> "halo"]
  /\ UNCHANGED <<init, mono, np, bc, var, old, new, left, right, it, todo, dts>>

(* a process reads the borders of its neighbours; they have not started the  *)
(* next step before everybody passed the reduction, so old is stable         *)
Halo(p) ==
  /\ pc[p] = "halo"
  /\ LET ql == (p + np - 1) % np  qr == (p + 1) % np
     IN  /\ left' = [left EXCEPT ![p] = IF p > 0 \/ bc = "periodic" THEN old[ql][(ql + 1) * Size - 1] ELSE old[p][0]]
         /\ right' = [right EXCEPT ![p] = IF p < np - 1 \/ bc = "periodic" THEN old[qr][qr * Size] ELSE old[p][N - 1]]
  /\ new' = [new EXCEPT ![p] = old[p]]
  /\ todo' = [todo EXCEPT ![p] = FacesOf(p)]
  /\ pc' = [pc EXCEPT ![p] = "faces"]
  /\ UNCHANGED <<init, mono, np, bc, var, old, dt, it, dts>>

V(p, i) == IF i < p * Size THEN left[p] ELSE IF i >= (p + 1) * Size THEN right[p] ELSE old[p][i]
(* variant "faces": one face at a time, in any order, updating both sides    *)
Face(p, f) ==
  /\ var = "faces" /\ pc[p] = "faces" /\ f \in todo[p]
  /\ LET F == dt[p] * Flux(V(p, f - 1), V(p, f))
     IN  new' = [new EXCEPT ![p] = [i \in Own(p) |-> IF i = f - 1 THEN @[i] - F ELSE IF i = f THEN @[i] + F ELSE @[i]]]
  /\ todo' = [todo EXCEPT ![p] = @ \ {f}]
  /\ UNCHANGED <<init, mono, np, bc, var, old, left, right, dt, pc, it, dts>>
(* variant "cells": one cell at a time, both its faces recomputed            *)
Cell(p, c) ==
  /\ var = "cells" /\ pc[p] = "faces" /\ c \in todo[p] /\ c \in Own(p)
  /\ new' = [new EXCEPT ![p][c] = @ + dt[p] * (Flux(V(p, c - 1), V(p, c)) - Flux(V(p, c), V(p, c + 1)))]
  /\ todo' = [todo EXCEPT ![p] = @ \ {c}]
  /\ UNCHANGED <<init, mono, np, bc, var, old, left, right, dt, pc, it, dts>>

(* buffers swap once all processes have read their halos of this step        *)
Swap(p) ==
  /\ pc[p] = "faces" /\ todo[p] \cap (IF var = "faces" THEN FacesOf(p) ELSE Own(p)) = {}
  /\ \A q \in Procs : pc[q] # "halo"
  /\ old' = [old EXCEPT ![p] = new[p]]
  /\ it' = [it EXCEPT ![p] = @ + 1]
  /\ dts' = [dts EXCEPT ![p] = Append(@, dt[p])]
  /\ pc' = [pc EXCEPT ![p] = "dt"]
  /\ UNCHANGED <<init, mono, np, bc, var, new, left, right, dt, todo>>

Next == Reduce \/ \E p \in Procs : Halo(p) \/ Swap(p) \/ (\E f \in 0 .. N : Face(p, f) \/ Cell(p, f))
Spec == Init /\ [][Next]_rvars

Gathered == [i \in Cells |-> old[i \div Size][i]]
InStep(k) == \A p \in Procs : it[p] = k /\ pc[p] = "dt"
EqualsReference == \A k \in 0 .. MaxStep : InStep(k) => Gathered = mono[k + 1]
AgreeOnSteps == \A p, q \in Procs : \A k \in 1 .. Len(dts[p]) : k <= Len(dts[q]) => dts[p][k] = dts[q][k]
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i < 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Conserved == bc = "periodic" => \A k \in 0 .. MaxStep : InStep(k) => SumTo(Gathered, N - 1) = SumTo(init, N - 1)
Terminates == \A p \in Procs : it[p] = MaxStep
NoDeadlock == Terminates \/ ENABLED Next
(* related initial states have related futures *)
Mirror(s) == [i \in Cells |-> s[RefX([Identity EXCEPT !.refl = <<1, 0, 0>>], 1, N, i, 0)]]
Shift(s, k) == [i \in Cells |-> s[RefX([Identity EXCEPT !.shift = <<k, 0, 0>>, !.per = <<1, 0, 0>>], 1, N, i, 0)]]
Equivariant == (\A p \in Procs : it[p] = 0 /\ pc[p] = "dt") =>
                 /\ Hist(Mirror(init), bc, MaxStep) = [k \in DOMAIN mono |-> Mirror(mono[k])]
                 /\ bc = "periodic" => \A d \in Cells :
                       Hist(Shift(init, d), bc, MaxStep) = [k \in DOMAIN mono |-> Shift(mono[k], d)]
=============================================================================
