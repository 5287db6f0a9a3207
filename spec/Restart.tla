----------------------------- MODULE Restart -----------------------------
(* A run that may be killed at any point and started again from any complete *)
(* snapshot (or from scratch).  The fluid is a finite deterministic machine: *)
(* state x, step D(x), next state F(x).  Reference: the run nobody           *)
(* interrupts.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mod,        \* number of fluid states
          TEnds, NOuts,
          MaxCrash,
          Reset       \* TRUE: a restarted run sets its clock to zero
F(x) == (5 * x + 3) % Mod
D(x) == 1 + (x % 3)
Clip(t, d, tend) == IF t + d > tend THEN tend - t ELSE d
Due(t, saved, tend, nout) == nout < 0 \/ (nout > 0 /\ t * nout > saved * tend)
(* the output interval is not shorter than the largest step: snapshots never *)
(* lag behind the schedule                                                   *)
Roomy(tend, nout) == nout > 0 /\ tend >= 3 * nout

(* the uninterrupted run: its states and its files, computed at once *)
RECURSIVE RefRun(_, _, _, _, _, _)
RefRun(x, t, it, files, tend, nout) ==
  IF t >= tend THEN [states |-> <<[x |-> x, t |-> t, it |-> it]>>, files |-> Append(files, [x |-> x, t |-> t])]
  ELSE LET f2 == IF Due(t, Len(files), tend, nout) THEN Append(files, [x |-> x, t |-> t]) ELSE files
           r == RefRun(F(x), t + Clip(t, D(x), tend), it + 1, f2, tend, nout)
       IN [r EXCEPT !.states = <<[x |-> x, t |-> t, it |-> it]>> \o @]
Ref(x0, tend, nout) == RefRun(x0, 0, 0, <<[x |-> x0, t |-> 0]>>, tend, nout)

VARIABLES cfg,      \* [x0, tend, nout, ref]
          pc,       \* off, first, loop, step, last, done; "w-" pc while a file is being written
          x, t, it, saved,
          disk,     \* number -> [x, t] or torn (o, the clock offset of the run that wrote it, is not in the file)
          t0, it0,  \* where this run started: clock offset of the reference, step of the reference
          crashes
vars == <<cfg, pc, x, t, it, saved, disk, t0, it0, crashes>>
Torn == [x |-> -1, t |-> -1, o |-> 0]
Put(k, v) == disk' = [n \in DOMAIN disk \cup {k} |-> IF n = k THEN v ELSE disk[n]]
Init == /\ \E x0 \in 0 .. Mod - 1, tend \in TEnds, nout \in NOuts :
             cfg = [x0 |-> x0, tend |-> tend, nout |-> nout, ref |-> Ref(x0, tend, nout)]
        /\ pc = "first" /\ x = cfg.x0 /\ t = 0 /\ it = 0 /\ saved = 0 /\ disk = << >> /\ t0 = 0 /\ it0 = 0 /\ crashes = 0
Keep == UNCHANGED <<cfg, t0, it0, crashes>>
(* writing is not atomic *)
Begin(from, to) == pc = from /\ pc' = to /\ Put(saved, Torn) /\ UNCHANGED <<x, t, it, saved>> /\ Keep
End(from, to) == pc = from /\ pc' = to /\ Put(saved, [x |-> x, t |-> t, o |-> t0]) /\ saved' = saved + 1 /\ UNCHANGED <<x, t, it>> /\ Keep
First == Begin("first", "w-first") \/ End("w-first", "loop")
Loop == /\ pc = "loop" /\ UNCHANGED <<x, t, it, saved, disk>> /\ Keep
        /\ pc' = IF t >= cfg.tend THEN "last" ELSE IF Due(t, saved, cfg.tend, cfg.nout) THEN "out" ELSE "step"
Out == Begin("out", "w-out") \/ End("w-out", "step")
Step == /\ pc = "step" /\ pc' = "loop" /\ x' = F(x) /\ t' = t + Clip(t, D(x), cfg.tend) /\ it' = it + 1 /\ UNCHANGED <<saved, disk>> /\ Keep
Last == Begin("last", "w-last") \/ End("w-last", "done")
Crash == /\ crashes < MaxCrash /\ pc # "off" /\ crashes' = crashes + 1 /\ pc' = "off"
         /\ UNCHANGED <<cfg, x, t, it, saved, disk, t0, it0>>
(* the iteration counter of a restarted run begins at zero; the step of the  *)
(* reference it resumes at is unique because the clock of the reference is   *)
(* strictly increasing                                                       *)
Resume == /\ pc = "off" /\ pc' = "first" /\ UNCHANGED <<cfg, disk, crashes>>
          /\ \E k \in DOMAIN disk : /\ disk[k] # Torn
                                    /\ x' = disk[k].x /\ saved' = k /\ it' = 0
                                    /\ t' = IF Reset THEN 0 ELSE disk[k].t
                                    /\ t0' = IF Reset THEN disk[k].o + disk[k].t ELSE 0
                                    /\ LET at == { i \in 1 .. Len(cfg.ref.states) : cfg.ref.states[i].t = disk[k].t + disk[k].o }
                                       IN  it0' = IF at = {} THEN 999 ELSE (CHOOSE i \in at : TRUE) - 1
Scratch == /\ pc = "off" /\ pc' = "first" /\ x' = cfg.x0 /\ t' = 0 /\ it' = 0 /\ saved' = 0 /\ t0' = 0 /\ it0' = 0
           /\ disk' = << >> /\ UNCHANGED <<cfg, crashes>>
Next == First \/ Loop \/ Out \/ Step \/ Last \/ Crash \/ Resume \/ Scratch \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(First \/ Loop \/ Out \/ Step \/ Last \/ Resume \/ Scratch)
----------------------------------------------------------------------------
(* P08 *)
R == cfg.ref
(* every state of every run is the reference state of the step it0 + it *)
(* (a run whose clock was reset goes on beyond the end of the reference)     *)
OnTrack == (pc # "off" /\ (Reset => it0 + it + 1 < Len(R.states))) =>
                         /\ it0 + it + 1 <= Len(R.states)
                         /\ R.states[it0 + it + 1] = [x |-> x, t |-> t + t0, it |-> it0 + it]
(* every complete file with a number the reference has is the file of the    *)
(* reference; a further one is the end state again                           *)
SameFiles == Roomy(cfg.tend, cfg.nout) =>
  \A k \in DOMAIN disk : disk[k] # Torn =>
      [x |-> disk[k].x, t |-> disk[k].t] = IF k + 1 <= Len(R.files) THEN R.files[k + 1] ELSE R.files[Len(R.files)]
(* without room the numbers may run ahead, the contents are still states of  *)
(* the reference                                                             *)
RealStates == \A k \in DOMAIN disk : disk[k] # Torn => \E i \in 1 .. Len(R.states) : R.states[i].x = disk[k].x /\ (Reset \/ R.states[i].t = disk[k].t)
Counter == Roomy(cfg.tend, cfg.nout) =>
  (pc = "step" /\ it > 0 => saved = Cardinality({ k \in 1 .. Len(R.files) : R.files[k].t <= t }) \/ t >= cfg.tend)
Finishes == <>[](pc = "done")
=============================================================================
