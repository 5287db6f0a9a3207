------------------------------ MODULE CflGen ------------------------------
(* writes the palette of exact fluid states for replay in the real solvers   *)
EXTENDS Cfl, TLC, Json, IOUtils
VARIABLE x
Palette == [u |-> U, field |-> Field, hydro |-> Hydro, mhd |-> <<Mhd(1), Mhd(2), Mhd(3)>>]
Init == x = 0 /\ JsonSerialize(IOEnv.OUT, Palette)
Next == x = 0 /\ x' = 1
Spec == Init /\ [][Next]_x
=============================================================================
