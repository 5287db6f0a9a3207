----------------------------- MODULE TraceTime -----------------------------
(* Recorded runs judged by the rules of TimeLoop.tla.  Times are limb        *)
(* numbers in units of 10^-15; ranks[p] is the sequence of clock readings    *)
(* [it, t, dt, used] of process p, the first one before any step; used is    *)
(* the step measured from the change of the state, in 10^-9 of dt (or -1).   *)
(* snaps: [num, t, at] the snapshots found on disk, at = the step whose      *)
(* state and time they hold (-1: none).                                      *)
EXTENDS TraceLib, FiniteSets
VARIABLE l
L == INSTANCE Limbs
TL == INSTANCE TimeLoop WITH NP <- 1, Stable <- {1}, TEnds <- {0}, NMax <- {0}, NOuts <- {0}, Starts <- {0}, Restarts <- FALSE,
        cfg <- 0, pc <- 0, t <- 0, it <- 0, applied <- 0, loc <- 0, dt <- 0, saved <- 0, snaps <- 0, bounds <- 0

Ulp(e) == L!Small(6, e.ulp)                    \* a few units in the last place of the times
FinishedL(t, it, e) == TL!Finished(IF L!Leq(e.tend, L!Add(t, Ulp(e))) THEN 1 ELSE 0, it, 1, e.nmax)
Clock(e, p) ==
  LET s == e.ranks[p]
      n == Len(s)
      step(k) == s[k + 1]
      why(k) == CASE step(k).it # k -> "iteration counter"
                  [] ~(L!Less(L!Zero(6), step(k).dt)) -> "step not positive"
                  [] ~L!NearL(step(k).t, L!Add(s[k].t, step(k).dt), Ulp(e)) -> "clock is not the sum of the steps"
                  [] L!Less(L!Add(e.tend, Ulp(e)), step(k).t) -> "past the end time"
                  [] FinishedL(s[k].t, s[k].it, e) -> "step after the end"
                  [] step(k).used # -1 /\ ~Near(step(k).used, 1000000000, e.utol) -> "state advanced by another step"
                  [] OTHER -> "ok"
      bad == { k \in 1 .. n - 1 : why(k) # "ok" }
  IN  CASE n = 0 -> <<"no clock", p>>
        [] n > 0 /\ ~(s[1].it = 0 /\ L!NearL(s[1].t, e.t0, Ulp(e))) -> <<"start", p, s[1]>>
        [] n > 0 /\ bad # {} -> LET k == CHOOSE x \in bad : \A y \in bad : x <= y IN <<why(k), "process", p, "step", k, s[k], s[k + 1]>>
        [] n > 0 /\ e.whole = 1 /\ ~FinishedL(s[n].t, s[n].it, e) -> <<"stopped early", p, s[n]>>
        [] OTHER -> <<>>

(* ties of two rounded numbers may go either way unless the case is exact *)
DueL(t, saved, e) == TL!Due(0, 0, 1, e.nout) \/ (e.nout > 0 /\ L!Less(L!Scale(e.tend, saved), L!Scale(t, e.nout)))
TieL(t, saved, e) == e.exact = 0 /\ e.nout > 0 /\ L!NearL(L!Scale(e.tend, saved), L!Scale(t, e.nout), L!Small(6, 1000000))
RECURSIVE Walk(_, _, _)
(* boundary k (before step k+1), j snapshots explained *)
Walk(e, k, j) ==
  LET s == e.ranks[1]
      K == Len(s) - 1
      saved == e.first + j
      here == j < Len(e.snaps) /\ e.snaps[j + 1].at = k
  IN  IF k = K THEN IF j = Len(e.snaps) - 1 /\ here THEN <<>>
                    ELSE <<"final snapshot", "explained", j, "of", Len(e.snaps), "steps", K>>
      ELSE IF here /\ (DueL(s[k + 1].t, saved, e) \/ TieL(s[k + 1].t, saved, e)) THEN Walk(e, k + 1, j + 1)
      ELSE IF DueL(s[k + 1].t, saved, e) /\ ~TieL(s[k + 1].t, saved, e)
           THEN <<"snapshot missing at step", k, "number", saved>>
      ELSE Walk(e, k + 1, j)
Snapshots(e) ==
  LET n == Len(e.snaps)
      bad == { k \in 1 .. n : e.snaps[k].num # e.first + k - 1 \/ e.snaps[k].at = -1 \/ e.snaps[k].attr # e.snaps[k].num }
  IN  CASE e.nout = 0 -> IF n = 0 THEN <<>> ELSE <<"output although none was requested", n>>
        [] e.nout # 0 /\ bad # {} -> LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                                     IN <<"snapshot is not the numbered state of a step", e.snaps[k], "position", k>>
        [] e.nout # 0 /\ bad = {} /\ (n = 0 \/ e.snaps[1].at # 0) -> <<"initial snapshot">>
        [] OTHER -> Walk(e, 0, 1)
Index(e) == IF e.index = <<-1>> \/ (e.index = [k \in 1 .. Len(e.index) |-> k - 1] /\ Len(e.index) = e.first + Len(e.snaps))
            THEN <<>> ELSE <<"time series index", e.index>>
Judge(e) ==
  LET c == { Clock(e, p) : p \in 1 .. Len(e.ranks) } \ {<<>>}
  IN  IF c # {} THEN Reject(e.id, CHOOSE x \in c : TRUE)
      ELSE IF \E p \in 2 .. Len(e.ranks) : [k \in DOMAIN e.ranks[p] |-> <<e.ranks[p][k].it, e.ranks[p][k].t, e.ranks[p][k].dt>>]
                                        # [k \in DOMAIN e.ranks[1] |-> <<e.ranks[1][k].it, e.ranks[1][k].t, e.ranks[1][k].dt>>]
           THEN Reject(e.id, "processes disagree on time")
      ELSE IF e.out = 0 THEN TRUE
      ELSE IF Snapshots(e) # <<>> THEN Reject(e.id, Snapshots(e))
      ELSE IF Index(e) # <<>> THEN Reject(e.id, Index(e))
      ELSE TRUE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
