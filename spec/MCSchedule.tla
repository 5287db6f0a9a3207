----------------------------- MODULE MCSchedule -----------------------------
EXTENDS Schedule
(* the experiment is not vacuous *)
ASSUME \E P \in [It -> Programs] : Clean(P)
ASSUME \E P \in [It -> Programs] : ~Clean(P)
(* canary: without the verdict some loop does depend on the interleaving (must be violated) *)
AlwaysDeterministic == Done => mem = Serial(prog)
=============================================================================
