------------------------------ MODULE TraceIni ------------------------------
(* answers of the real parameter-file reader (read directly, from a buffer,   *)
(* read by one process and broadcast; every process) judged by Ini.tla        *)
EXTENDS TraceLib
I == INSTANCE Ini
VARIABLE l
Value(S, q) == IF I!Has(S.defs, q.sec, q.key) THEN I!Lookup(S.defs, q.sec, q.key) ELSE <<>>
Right(S, q, a) ==
  LET v == Value(S, q)  D == I!Decimal(v)
  IN  CASE q.t = "string" -> a = (IF I!Has(S.defs, q.sec, q.key) THEN v ELSE q.d)
        [] q.t = "int" -> IF I!IsInt(v) \/ I!IsHex(v) THEN a = I!IntOf(v) ELSE IF I!NoNumber(v) THEN a = q.d ELSE TRUE
        [] q.t = "bool" -> a = I!BoolOf(v, q.d)
        [] q.t = "float" -> IF I!Held(D) THEN LET m == I!Micro(D) IN Near(a, m, 1 + Abs(m) \div 10000000)
                            ELSE IF I!NoNumber(v) THEN a = q.d ELSE TRUE
Judge(e) ==
  LET S == I!Scan(e.doc)
      A == e.ans
      wrong == { i \in 1 .. Len(A) : A[i].err # (IF e.missing THEN -1 ELSE S.err) }
      off == { p \in (1 .. Len(A)) \X (1 .. Len(e.q)) : ~Right(S, e.q[p[2]], A[p[1]].a[p[2]]) }
  IN  IF wrong # {} THEN LET i == CHOOSE i \in wrong : TRUE IN <<"error line", A[i].err, "wanted", IF e.missing THEN -1 ELSE S.err, A[i].how, A[i].rank>>
      ELSE IF off # {} THEN LET p == CHOOSE p \in off : TRUE IN <<A[p[1]].how, A[p[1]].rank, e.q[p[2]], "answered", A[p[1]].a[p[2]], "value", Value(S, e.q[p[2]])>>
      ELSE <<>>
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] r == Judge(e) IN IF r = <<>> THEN TRUE ELSE Reject(e.id, r)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
