----------------------------- MODULE StepLimit -----------------------------
(* How processes agree on a step: every process takes the fastest of its     *)
(* interior cells of the buffer written last (the buffers alternate), the    *)
(* smallest of the resulting steps is used by all, shortened at the end      *)
(* time.  A step is cfl / w; the clock counts in units where the fastest     *)
(* possible cell allows 1 and weight w allows WMax \div w (rounded up: the   *)
(* order of steps is all that matters).                                      *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS NP,          \* processes
          NC,          \* interior cells of each
          WMax,        \* weights 1 .. WMax
          TEnd         \* end time
P == 1 .. NP
VARIABLES buf,         \* buf[b][p][c], b = 0, 1: weights of the interior cells
          ghost,       \* ghost[p]: weight met in the ghost layer (never read)
          it, t, pc, loc, dt
vars == <<buf, ghost, it, t, pc, loc, dt>>
Grid == [P -> [1 .. NC -> 1 .. WMax]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Step(w) == (WMax * 2) \div w                          \* decreasing in w
Cur == buf[it % 2]
Init == /\ buf \in [0 .. 1 -> Grid] /\ ghost \in [P -> {1, WMax}] /\ it = 0 /\ t = 0
        /\ pc = [p \in P |-> "limit"] /\ loc = [p \in P |-> 0] /\ dt = [p \in P |-> 0]
Local(p) == /\ pc[p] = "limit" /\ t < TEnd
            /\ loc' = [loc EXCEPT ![p] = Step(MaxOf({ Cur[p][c] : c \in 1 .. NC }))]
            /\ pc' = [pc EXCEPT ![p] = "reduce"] /\ UNCHANGED <<buf, ghost, it, t, dt>>
Reduce(p) == /\ pc[p] = "reduce" /\ \A q \in P : pc[q] # "limit"
             /\ LET m == MinOf({ loc[q] : q \in P })
                IN dt' = [dt EXCEPT ![p] = IF t + m > TEnd THEN TEnd - t ELSE m]
             /\ pc' = [pc EXCEPT ![p] = "ready"] /\ UNCHANGED <<buf, ghost, it, t, loc>>
(* the update writes the other buffer (any new values) *)
Advance == /\ \A p \in P : pc[p] = "ready"
           /\ \E g \in {buf[0], buf[1], [p \in P |-> [c \in 1 .. NC |-> WMax]]} :
                buf' = [buf EXCEPT ![(it + 1) % 2] = g]
           /\ it' = it + 1 /\ t' = t + dt[1] /\ pc' = [p \in P |-> "limit"]
           /\ UNCHANGED <<ghost, loc, dt>>
Next == Advance \/ \E p \in P : Local(p) \/ Reduce(p)
Spec == Init /\ [][Next]_vars
All == { Cur[p][c] : p \in P, c \in 1 .. NC }
(* the guarantee, independent of how it is computed *)
Agreed == (\A p \in P : pc[p] = "ready") => \A p \in P :
            /\ dt[p] = dt[1] /\ dt[p] > 0 /\ t + dt[p] <= TEnd
            /\ \A w \in All : dt[p] <= Step(w)
            /\ (t + dt[p] < TEnd => \E w \in All : dt[p] = Step(w))
=============================================================================
