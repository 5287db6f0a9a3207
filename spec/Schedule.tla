----------------------------- MODULE Schedule -----------------------------
(* A parallel loop: iterations run concurrently, each first reads, then      *)
(* writes, then adds atomically.  Memory holds symbolic terms, so two        *)
(* results are equal only if they were computed the same way.                *)
(*                                                                           *)
(* Clean is the verdict of the experiment made on the real loops (mode 2 of  *)
(* harness/sched.h): every iteration runs alone from the memory before the   *)
(* loop and once more from the memory left by all the others.                *)
(* Theorem (checked for every pair / triple of programs): if the experiment  *)
(* is clean, every interleaving ends in the memory of the serial run.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NI, NA, MaxOps
VARIABLES prog, mem, pc, loc
It == 1 .. NI
Addr == 1 .. NA
Programs == { p \in [rd : SUBSET Addr, wr : SUBSET Addr, ad : SUBSET Addr] :
                Cardinality(p.rd) + Cardinality(p.wr) + Cardinality(p.ad) <= MaxOps /\ p.wr \cap p.ad = {} }

Cell(b) == [base |-> b, add |-> {}]
Pre == [a \in Addr |-> Cell(<<"pre", a>>)]
Seen(p, m) == [a \in p.rd |-> m[a]]
WVal(i, a, s) == Cell(<<"w", i, a, s>>)
AVal(i, a, s) == <<i, a, s>>
Plus(c, v) == [c EXCEPT !.add = @ \cup {v}]

(* one iteration alone, without interruption *)
Alone(i, p, m) == LET s == Seen(p, m)
                  IN  [a \in Addr |-> IF a \in p.wr THEN WVal(i, a, s)
                                      ELSE IF a \in p.ad THEN Plus(m[a], AVal(i, a, s)) ELSE m[a]]
RECURSIVE SerialTo(_, _, _)
SerialTo(k, P, m) == IF k = 0 THEN m ELSE Alone(k, P[k], SerialTo(k - 1, P, m))
Serial(P) == SerialTo(NI, P, Pre)

(* ---- the experiment ---- *)
(* accesses : set of [it, k, v]; shared by the trace specification *)
SharedOK(by) == \/ \A b \in by : b.k = "a"
                \/ \A b, c \in by : b.k = "w" /\ c.k = "w" /\ b.v = c.v
Writers(P, a) == { [it |-> i, k |-> "w", v |-> WVal(i, a, Seen(P[i], Pre))] : i \in { j \in It : a \in P[j].wr } }
                 \cup { [it |-> i, k |-> "a", v |-> Cell(<<"add">>)] : i \in { j \in It : a \in P[j].ad } }
Without(i, P) == LET post == Serial(P)
                 IN  [a \in Addr |-> IF a \in P[i].wr \/ (a \in P[i].ad /\ \A j \in It : a \in P[j].ad => j = i)
                                     THEN Pre[a] ELSE post[a]]
Depends(i, P) == Seen(P[i], Without(i, P)) # Seen(P[i], Pre)
                 /\ (P[i].wr \cup P[i].ad) # {}                \* only what it writes is observed
Clean(P) == /\ \A a \in Addr : Cardinality(Writers(P, a)) > 1 => SharedOK(Writers(P, a))
            /\ \A i \in It : ~Depends(i, P)

(* ---- all interleavings ---- *)
Ops(p) == [k \in 1 .. 3 * NA |->
             LET a == 1 + ((k - 1) % NA)
             IN  IF k <= NA THEN IF a \in p.rd THEN "r" ELSE "-"
                 ELSE IF k <= 2 * NA THEN IF a \in p.wr THEN "w" ELSE "-"
                 ELSE IF a \in p.ad THEN "a" ELSE "-"]
NextOp(p, k) == LET c == { j \in k + 1 .. 3 * NA : Ops(p)[j] # "-" }
                IN  IF c = {} THEN 3 * NA + 1 ELSE CHOOSE j \in c : \A x \in c : j <= x
Init == /\ prog \in [It -> Programs]
        /\ mem = Pre
        /\ pc = [i \in It |-> NextOp(prog[i], 0)]
        /\ loc = [i \in It |-> <<>>]
Step(i) == /\ pc[i] <= 3 * NA
           /\ LET k == pc[i]  a == 1 + ((k - 1) % NA)  o == Ops(prog[i])[k]
              IN  /\ loc' = IF o = "r" THEN [loc EXCEPT ![i] = (a :> mem[a]) @@ @] ELSE loc
                  /\ mem' = IF o = "w" THEN [mem EXCEPT ![a] = WVal(i, a, [x \in prog[i].rd |-> loc[i][x]])]
                            ELSE IF o = "a" THEN [mem EXCEPT ![a] = Plus(@, AVal(i, a, [x \in prog[i].rd |-> loc[i][x]]))]
                            ELSE mem
                  /\ pc' = [pc EXCEPT ![i] = NextOp(prog[i], k)]
           /\ UNCHANGED prog
Next == \E i \in It : Step(i)
Spec == Init /\ [][Next]_<<prog, mem, pc, loc>>
Done == \A i \in It : pc[i] > 3 * NA
CleanMeansDeterministic == Done /\ Clean(prog) => mem = Serial(prog)
=============================================================================
