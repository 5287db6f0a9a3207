--------------------------- MODULE TraceSchedule ---------------------------
(* Experiments on the real parallel loops judged with Schedule.tla, and      *)
(* whole runs under different schedules that must be identical.              *)
(*  loop  : addresses with several writers, iterations that depend on others *)
(*  reduce: the contributions and the result, as order preserving integers   *)
(*  twin  : bit patterns of the states and clocks of a run and its reference *)
EXTENDS TraceLib, FiniteSets
VARIABLE l
SCH == INSTANCE Schedule WITH NI <- 1, NA <- 1, MaxOps <- 1, prog <- 0, mem <- 0, pc <- 0, loc <- 0
RED == INSTANCE Reduction WITH N <- 0, K <- 0, T <- 0, c <- 0, todo <- 0, part <- 0, joined <- 0, acc <- 0
Range(s) == { s[i] : i \in DOMAIN s }
JudgeLoop(e) ==
  LET bad == { i \in DOMAIN e.shared : ~SCH!SharedOK(Range(e.shared[i].by)) }
  IN  IF bad # {} THEN Reject(e.id, <<"iterations conflict", e.loop, e.shared[CHOOSE i \in bad : TRUE]>>)
      ELSE IF Len(e.dep) > 0 THEN Reject(e.id, <<"iteration depends on others", e.loop, e.dep[1]>>)
      ELSE TRUE
JudgeReduce(e) ==
  IF e.notfold > 0 THEN Reject(e.id, <<"accumulation is not the fold of the joined contributions", e.loop, e.notfold>>)
  ELSE IF e.writes > 0 THEN Reject(e.id, <<"reduction writes memory", e.loop, e.writes>>)
  ELSE IF e.result # RED!Largest(e.contrib, DOMAIN e.contrib)
       THEN Reject(e.id, <<"result is not the largest contribution", e.loop, e.result>>)
  ELSE TRUE
JudgeTwin(e) ==
  IF Len(e.ref) # Len(e.run) THEN Reject(e.id, <<"steps", Len(e.ref), Len(e.run)>>)
  ELSE LET bad == { k \in DOMAIN e.ref : e.ref[k] # e.run[k] }
       IN  IF bad = {} THEN TRUE
           ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                IN  Reject(e.id, <<"schedule changes the result at step", k, e.ref[k], e.run[k]>>)
Judge(e) == CASE e.ev = "loop" -> JudgeLoop(e) [] e.ev = "reduce" -> JudgeReduce(e) [] e.ev = "twin" -> JudgeTwin(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
