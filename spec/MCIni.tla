------------------------------- MODULE MCIni -------------------------------
(* every document of up to MaxLines lines from a set of line shapes: the      *)
(* characters mean what was meant; case does not matter; the reader that only *)
(* sees the file in pieces of characters (lines are joined up first) agrees   *)
EXTENDS Ini
CONSTANT MaxLines
VARIABLE doc
sp == <<" ">>
Names == { <<"n">>, <<"N">> }
Tails == { <<>>, <<" ", ";", "=">>, <<" ", ";", "]">> }
Lines ==
     { [k |-> "section", name |-> n, tail |-> t] : n \in { <<"r">>, <<"R">>, <<"q">> }, t \in { <<>>, <<" ", ";", "[">> } }
  \union { [k |-> "entry", lead |-> a, name |-> n, b1 |-> b, b2 |-> c, val |-> v, tail |-> t]
            : a \in { <<>>, sp }, n \in { <<"n">>, <<"N">>, <<"m", ";">> }, b \in { <<>>, sp }, c \in { <<>>, <<"\t">> },
              v \in { <<>>, <<"1">>, <<"a", " ", "=">>, <<"b", ";">> }, t \in { <<>>, <<" ", ";", "=">> } }
  \union { [k |-> "more", lead |-> a, val |-> v, tail |-> t] : a \in { <<>>, sp }, v \in { <<"2">>, <<"[", "z", "]">>, <<"m", "=", "3">> }, t \in Tails }
  \union { [k |-> "comment", lead |-> a, text |-> v] : a \in { <<>>, sp }, v \in { <<";">>, <<"#", "n", "=", "5">> } }
  \union { [k |-> "blank", lead |-> a] : a \in { <<>>, sp, <<"\r">> } }
  \union { [k |-> "bad", text |-> v] : v \in { <<"n">>, <<"[", "r">>, <<"n", " ", ";", "=">>, <<"[", " ", ";", "]">> } }
Init == doc = <<>>
Next == Len(doc) < MaxLines /\ \E l \in Lines : Fits(doc, l) /\ doc' = Append(doc, l)
Spec == Init /\ [][Next]_doc
Chars(ls) == [i \in 1 .. Len(ls) |-> Render(ls[i])]
SameMeaning ==
  LET a == Scan(Chars(doc))  b == Meant(doc)
  IN  a.defs = b.defs /\ a.err = b.err /\ a.no = b.no
(* letter case of sections and keys, blanks at the ends of lines, comments:   *)
(* none of them changes any answer                                            *)
Lows(ls) == [i \in 1 .. Len(ls) |-> IF ls[i].k \in {"section", "entry"} THEN [ls[i] EXCEPT !.name = Lower(@)] ELSE ls[i]]
CaseBlind == Scan(Chars(Lows(doc))).defs = Scan(Chars(doc)).defs
BlankBlind == LET c == Chars(doc) IN Scan([i \in 1 .. Len(c) |-> c[i] \o <<" ", "\t">>]).defs = Scan(c).defs
(* what a later line says never changes what earlier lines said, only hides it *)
Prefix == LET a == Scan(Chars(doc)).defs IN
          \A n \in 0 .. Len(doc) : LET b == Scan(Chars(Cut(doc, n))).defs IN b = Cut(a, Len(b))
=============================================================================
