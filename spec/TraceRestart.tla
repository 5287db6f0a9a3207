--------------------------- MODULE TraceRestart ---------------------------
(* Recorded restarts, against the rules of Restart.tla.                      *)
(* want: the uninterrupted run from the snapshot on, got: the restarted run: *)
(* clock, step and snapshot counter after every step.  files: the snapshots  *)
(* of both runs that carry the same number.                                  *)
EXTENDS TraceLib, FiniteSets
VARIABLE l
Rs == INSTANCE Restart WITH Mod <- 1, TEnds <- {}, NOuts <- {}, MaxCrash <- 0, Reset <- FALSE, cfg <- <<>>, pc <- "", x <- 0, t <- 0, it <- 0, saved <- 0,
        disk <- <<>>, t0 <- 0, it0 <- 0, crashes <- 0
First(s) == CHOOSE a \in s : \A b \in s : a <= b
Clock(e) ==
  LET n == IF Len(e.want) < Len(e.got) THEN Len(e.want) ELSE Len(e.got)
      \* a run whose clock was reset goes on for longer, and the last step of the reference may be cut
      m == IF e.reset = 1 THEN (IF n = Len(e.want) THEN n - 1 ELSE n) ELSE n
      off == IF e.reset = 1 THEN e.want[1].t ELSE 0
      badT == { i \in 1 .. m : ~Near(e.got[i].t + off, e.want[i].t, e.tol) }
      badD == { i \in 2 .. m : ~Near(e.got[i].dt, e.want[i].dt, e.tol) }
      badS == { i \in 2 .. m : e.got[i].saved # e.want[i].saved }
  IN  CASE e.reset = 0 /\ Len(e.want) # Len(e.got) -> <<"steps", Len(e.want), Len(e.got)>>
        [] e.reset = 1 /\ Len(e.got) < Len(e.want) -> <<"steps", Len(e.want), Len(e.got)>>
        [] badT # {} -> <<"clock", First(badT), e.want[First(badT)].t, e.got[First(badT)].t + off>>
        [] badD # {} -> <<"time step", First(badD), e.want[First(badD)].dt, e.got[First(badD)].dt>>
        [] e.got[1].saved # e.num + 1 -> <<"counter", e.got[1].saved, "after rewriting", e.num>>
        [] e.room = 1 /\ e.reset = 0 /\ badS # {} -> <<"snapshot counter", First(badS), e.want[First(badS)].saved, e.got[First(badS)].saved>>
        [] OTHER -> <<>>
(* numbers written by the uninterrupted run (from e.num on) and by the restarted one *)
Numbers(e) ==
  LET w == { e.wnums[i] : i \in 1 .. Len(e.wnums) }
      g == { e.gnums[i] : i \in 1 .. Len(e.gnums) }
      last == CHOOSE n \in w : \A q \in w : q <= n
  IN  CASE e.room = 0 \/ e.reset = 1 -> IF \A n \in e.num .. e.num : n \in g THEN <<>> ELSE <<"snapshot not rewritten", e.num>>
        [] e.num = last -> IF g = {last, last + 1} THEN <<>> ELSE <<"numbers after the end", g>>
        [] OTHER -> IF g = w THEN <<>> ELSE <<"numbers", g, "uninterrupted", w>>
File(e) ==
  LET bad == { i \in 1 .. Len(e.files) :
        LET f == e.files[i] IN
          ~(Near(f.t[1], f.t[2], e.tol) /\ f.attr = f.num /\ Len(f.a) = Len(f.b) /\ \A c \in 1 .. Len(f.a) : Near(f.a[c], f.b[c], e.tol)) }
  IN  IF bad = {} THEN <<>> ELSE LET f == e.files[First(bad)] IN <<"snapshot", f.num, "time", f.t, "number", f.attr, "differs from the uninterrupted run's">>
Judge(e) == LET w == Clock(e)  x == Numbers(e)  y == File(e)
            IN IF w # <<>> THEN Reject(e.id, w) ELSE IF x # <<>> THEN Reject(e.id, x) ELSE IF y # <<>> THEN Reject(e.id, y) ELSE TRUE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
