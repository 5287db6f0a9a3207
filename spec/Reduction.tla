----------------------------- MODULE Reduction -----------------------------
(* A parallel reduction: contributions are folded into the partial results   *)
(* of any number of threads and these are joined in any order.  With a fold  *)
(* acc' = max(acc, contribution) the result is the largest contribution,     *)
(* whatever the schedule.                                                    *)
EXTENDS Integers, FiniteSets
CONSTANTS N, K, T
VARIABLES c, todo, part, joined, acc
Bottom == -1
Max(x, y) == IF x > y THEN x ELSE y
Init == /\ c \in [1 .. N -> 0 .. K] /\ todo = 1 .. N /\ part = [t \in 1 .. T |-> Bottom] /\ joined = {} /\ acc = Bottom
Take == \E i \in todo, t \in (1 .. T) \ joined :
          todo' = todo \ {i} /\ part' = [part EXCEPT ![t] = Max(@, c[i])] /\ UNCHANGED <<c, joined, acc>>
Join == todo = {} /\ \E t \in (1 .. T) \ joined :
          joined' = joined \cup {t} /\ acc' = Max(acc, part[t]) /\ UNCHANGED <<c, todo, part>>
Next == Take \/ Join
Spec == Init /\ [][Next]_<<c, todo, part, joined, acc>>
Largest(f, D) == IF D = {} THEN Bottom ELSE CHOOSE x \in { f[i] : i \in D } : \A i \in D : f[i] <= x
ResultIsLargest == joined = 1 .. T => acc = Largest(c, 1 .. N)
=============================================================================
