--------------------------- MODULE TraceSnapshot ---------------------------
(* Recorded snapshots.  Every value is given as the number of its bit        *)
(* pattern (equal numbers: equal bits).                                      *)
(* file: the blocks of all processes (ghosts included) and what the file     *)
(*       holds; load: global interiors before and after reading it back;     *)
(* up:   a coarse file (integer values, ghosts included) and the doubled     *)
(*       values of the run of twice the resolution started from it           *)
EXTENDS TraceLib, FiniteSets
VARIABLE l
Sn == INSTANCE Snapshot WITH Per <- <<1, 1, 1>>, M <- <<1, 1, 1>>, Layouts <- {}, Readers <- {}, Dim <- 2, W <- <<0, 0, 0>>, ver <- 0, fresh <- TRUE,
        prev <- 0, file <- <<>>, todo <- {}, kind <- "", mem <- <<>>, reader <- <<>>
Size(d) == d[1] * d[2] * d[3]
File(e) ==
  LET d == TLCEval(Sn!Dims(e.kind, e.n, e.m, e.w, e.dim))
      bd == [a \in 1 .. 3 |-> e.n[a] + 2 * e.w[a]]
      nv == Len(e.names)
      inner(c) == Sn!Inner(c, e.n, e.w)
      W(b, c) == Sn!Where(e.kind, b.pc, b.rank, c, e.n, e.m, e.w, e.dim)
      bad(b) == { c \in Sn!Block(e.n, e.w) :
                    LET p == W(b, c) IN p # <<>> /\ \E v \in 1 .. nv : e.file[v][Sn!Flat(p, d)] # b.v[v][Sn!Flat(c, bd)] }
      allbad == { i \in 1 .. Len(e.blocks) : bad(e.blocks[i]) # {} }
      places == UNION { { W(e.blocks[i], c) : c \in Sn!Block(e.n, e.w) } : i \in 1 .. Len(e.blocks) } \ {<<>>}
  IN  CASE Len(e.blocks) # Sn!Procs(e.m) -> <<"blocks", Len(e.blocks)>>
        [] e.missing # <<>> -> <<"missing in the file", e.missing>>
        [] \E v \in 1 .. nv : e.dims[v] # d -> <<"sizes", e.dims, "wanted", d>>
        [] e.step[1] # e.step[2] -> <<"number", e.step>>
        [] e.time[1] # e.time[2] -> <<"time", e.time>>
        [] e.sizes # [a \in 1 .. 3 |-> e.n[a]] -> <<"recorded sizes", e.sizes, e.n>>
        [] e.grid # <<>> /\ e.grid # [a \in 1 .. 3 |-> e.m[a]] -> <<"recorded process grid", e.grid>>
        [] allbad # {} -> LET i == CHOOSE x \in allbad : \A y \in allbad : x <= y  c == CHOOSE x \in bad(e.blocks[i]) : TRUE
                          IN <<"cell", c, IF inner(c) THEN "interior" ELSE "ghost", "of process", e.blocks[i].pc, "differs at", W(e.blocks[i], c),
                               Cardinality(bad(e.blocks[i])), "cells">>
        [] Cardinality(places) # Size(d) -> <<"positions written", Cardinality(places), "of", Size(d)>>
        [] OTHER -> <<>>
Load(e) ==
  LET bad == { v \in 1 .. Len(e.want) : e.want[v] # e.got[v] }
  IN  CASE Len(e.want) # Len(e.got) -> <<"variables">>
        [] e.step[1] # e.step[2] -> <<"number read back", e.step>>
        [] e.time[1] # e.time[2] -> <<"time read back", e.time>>
        [] bad # {} -> LET v == CHOOSE x \in bad : TRUE
                       IN <<"variable", v, "differs at", CHOOSE i \in 1 .. Len(e.want[v]) : i > Len(e.got[v]) \/ e.want[v][i] # e.got[v][i]>>
        [] OTHER -> <<>>
Up(e) ==
  LET cd == [a \in 1 .. 3 |-> (e.n[a] + 1) \div 2 + 2 * e.w[a]]
      want(v, c) == LET h == [a \in 1 .. 3 |-> c[a] \div 2 + e.w[a]]
                        a == e.st[v]
                        x == e.coarse[v][Sn!Flat(h, cd)]
                    IN  IF a > 0 /\ c[a] % 2 = 1 THEN x + e.coarse[v][Sn!Flat([h EXCEPT ![a] = @ + 1], cd)] ELSE 2 * x
      bad == { <<v, c>> \in (1 .. Len(e.st)) \X Sn!Grid(e.n) : e.fine[v][Sn!Flat(c, e.n)] # want(v, c) }
  IN  IF bad = {} THEN <<>> ELSE LET b == CHOOSE x \in bad : TRUE IN <<"fine cell", b, e.fine[b[1]][Sn!Flat(b[2], e.n)], "wanted", want(b[1], b[2]), Cardinality(bad)>>
Judge(e) == LET w == CASE e.ev = "file" -> File(e) [] e.ev = "load" -> Load(e) [] e.ev = "up" -> Up(e)
            IN IF w = <<>> THEN TRUE ELSE Reject(e.id, w)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
