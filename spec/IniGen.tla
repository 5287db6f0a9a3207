------------------------------- MODULE IniGen -------------------------------
(* writes the documents of MCIni.tla for replay in the real reader *)
EXTENDS MCIni, Json, IOUtils, SequencesExt
VARIABLE x
L == TLCEval(SetToSeq(Lines))
N == Len(L)
Pre == <<[k |-> "section", name |-> <<"r">>, tail |-> <<>>], [k |-> "entry", lead |-> <<>>, name |-> <<"n">>, b1 |-> sp, b2 |-> sp, val |-> <<"7">>, tail |-> <<>>]>>
R == TLCEval([i \in 1 .. N |-> Render(L[i])])
Ok == TLCEval([i \in 1 .. N |-> Fits(<<>>, L[i])])
Pairs == [p \in 1 .. N * N |-> LET i == ((p - 1) \div N) + 1  j == ((p - 1) % N) + 1
                               IN  IF Ok[i] /\ Fits(<<L[i]>>, L[j]) THEN <<R[i], R[j]>> ELSE <<>>]
Third == [i \in 1 .. N |-> IF Fits(Pre, L[i]) THEN Append(Chars(Pre), R[i]) ELSE <<>>]
GenInit == x = 0 /\ doc = <<>> /\ JsonSerialize(IOEnv.OUT, [docs |-> Pairs \o Third])
GenNext == x = 0 /\ x' = 1 /\ UNCHANGED doc
GenSpec == GenInit /\ [][GenNext]_<<x, doc>>
=============================================================================
