----------------------------- MODULE TimeLoop -----------------------------
(* The run of a solver: the main loop, the time step agreed by all           *)
(* processes, the clock, the output schedule and a restart from a snapshot.  *)
(* Time and steps are integers.  The state of the fluid is represented by    *)
(* the sum of the steps that were applied to it.                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NP,          \* number of processes
          Stable,      \* steps a process may find stable (positive)
          TEnds, NMax, NOuts,
          Starts,      \* configured start times
          Restarts     \* TRUE: runs may also start from a snapshot of an earlier run

----------------------------------------------------------------------------
(* the rules, shared with the trace specification *)
Finished(t, it, tend, nmax) == t >= tend \/ it >= nmax
Clip(t, dt, tend) == IF t + dt > tend THEN tend - t ELSE dt
(* saved: snapshots so far.  Multiple number `saved' of the interval tend/nout *)
(* has been passed strictly, or every step is wanted.                         *)
Due(t, saved, tend, nout) == nout < 0 \/ (nout > 0 /\ t * nout > saved * tend)
----------------------------------------------------------------------------
VARIABLES cfg,     \* [tend, nmax, nout, t0, first]
          pc, t, it, applied, loc, dt, saved, snaps, bounds
vars == <<cfg, pc, t, it, applied, loc, dt, saved, snaps, bounds>>
Procs == 1 .. NP

Init == /\ cfg \in [tend : TEnds, nmax : NMax, nout : NOuts, t0 : Starts, first : IF Restarts THEN 0 .. 3 ELSE {0}]
        /\ cfg.t0 <= cfg.tend
        /\ cfg.first > 0 => (cfg.nout > 0 /\ Due(cfg.t0, cfg.first - 1, cfg.tend, cfg.nout))
        /\ pc = "start" /\ t = cfg.t0 /\ it = 0 /\ applied = 0
        /\ loc = [p \in Procs |-> 0] /\ dt = 0 /\ saved = cfg.first /\ snaps = <<>> /\ bounds = <<>>

Save == /\ snaps' = Append(snaps, [num |-> saved, t |-> t, u |-> cfg.t0 + applied, at |-> it])
        /\ saved' = saved + 1
First == /\ pc = "start" /\ pc' = "loop"
         /\ IF cfg.nout # 0 THEN Save ELSE UNCHANGED <<snaps, saved>>
         /\ UNCHANGED <<cfg, t, it, applied, loc, dt, bounds>>
Loop == /\ pc = "loop"
        /\ pc' = IF Finished(t, it, cfg.tend, cfg.nmax) THEN "last" ELSE "out"
        /\ UNCHANGED <<cfg, t, it, applied, loc, dt, saved, snaps, bounds>>
Out == /\ pc = "out" /\ pc' = "dt"
       /\ IF Due(t, saved, cfg.tend, cfg.nout) THEN Save ELSE UNCHANGED <<snaps, saved>>
       /\ bounds' = Append(bounds, [t |-> t, had |-> saved])
       /\ loc' = [p \in Procs |-> 0]
       /\ UNCHANGED <<cfg, t, it, applied, dt>>
Local(p) == /\ pc = "dt" /\ loc[p] = 0 /\ \E d \in Stable : loc' = [loc EXCEPT ![p] = d]
            /\ UNCHANGED <<cfg, pc, t, it, applied, dt, saved, snaps, bounds>>
Agree == /\ pc = "dt" /\ \A p \in Procs : loc[p] > 0
         /\ dt' = Clip(t, CHOOSE d \in { loc[p] : p \in Procs } : \A p \in Procs : d <= loc[p], cfg.tend)
         /\ pc' = "update" /\ UNCHANGED <<cfg, t, it, applied, loc, saved, snaps, bounds>>
Update == /\ pc = "update" /\ applied' = applied + dt /\ pc' = "clock"
          /\ UNCHANGED <<cfg, t, it, loc, dt, saved, snaps, bounds>>
Clock == /\ pc = "clock" /\ t' = t + dt /\ it' = it + 1 /\ pc' = "loop"
         /\ UNCHANGED <<cfg, applied, loc, dt, saved, snaps, bounds>>
Last == /\ pc = "last" /\ pc' = "done"
        /\ IF cfg.nout # 0 THEN Save ELSE UNCHANGED <<snaps, saved>>
        /\ UNCHANGED <<cfg, t, it, applied, loc, dt, bounds>>
Next == First \/ Loop \/ Out \/ (\E p \in Procs : Local(p)) \/ Agree \/ Update \/ Clock \/ Last
        \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* P04 *)
ClockIsSumOfSteps == pc # "clock" => t = cfg.t0 + applied
NeverPast == t <= cfg.tend /\ it <= cfg.nmax
StepsPositive == pc \in {"update", "clock"} => dt > 0 /\ \A p \in Procs : dt <= loc[p]
StopsExactly == pc \in {"last", "done"} => (t = cfg.tend \/ it = cfg.nmax)
Terminates == <>(pc = "done")
(* P06 *)
Numbered == \A k \in 1 .. Len(snaps) : snaps[k].num = cfg.first + k - 1
OwnState == \A k \in 1 .. Len(snaps) : snaps[k].u = snaps[k].t
Quiet == cfg.nout = 0 => snaps = <<>>
FirstAndLast == (pc = "done" /\ cfg.nout # 0) =>
                  /\ Len(snaps) >= 2 /\ snaps[1].t = cfg.t0 /\ snaps[Len(snaps)].t = t
(* at a boundary inside the run at most one snapshot; with a positive count  *)
(* snapshot number n is at the first boundary at which multiple n is passed  *)
(* and the previous snapshots have been written                              *)
Scheduled ==
  \A k \in 2 .. Len(snaps) : (pc = "done" /\ k = Len(snaps)) \/
     /\ snaps[k].at # snaps[k - 1].at \/ k = 2      \* the initial one may be repeated
     /\ cfg.nout > 0 => snaps[k].t * cfg.nout > snaps[k].num * cfg.tend
AllDue == \A b \in DOMAIN bounds :
  (cfg.nout > 0 /\ bounds[b].t * cfg.nout > bounds[b].had * cfg.tend) =>
      \E k \in 1 .. Len(snaps) : snaps[k].num = bounds[b].had /\ snaps[k].t = bounds[b].t
EveryStep == (cfg.nout < 0 /\ pc = "done") => Len(snaps) = it + 2
=============================================================================
