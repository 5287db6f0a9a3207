-------------------------------- MODULE Ini --------------------------------
(* Meaning of a parameter file.  A document is a sequence of lines, a line a  *)
(* sequence of one-character strings.                                         *)
(*                                                                            *)
(* Two descriptions.  Scan: what the characters of any document mean, line by *)
(* line.  Render/Meaning: the documents a user means to write (sections,      *)
(* entries, comments, continuations with any blanks, letter case and trailing *)
(* comments) and what they are meant to say.  MCIni.tla checks that they      *)
(* agree; recorded answers of the real reader are judged by Scan.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Blank == {" ", "\t", "\r", "\f"}
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lowr  == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerMap == [c \in { Upper[i] : i \in 1 .. 26 } |-> Lowr[CHOOSE i \in 1 .. 26 : Upper[i] = c]]
LowerC(c) == IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE c
Lower(s) == [i \in 1 .. Len(s) |-> LowerC(s[i])]
Cut(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n, Len(s))
RECURSIVE RTrim(_), LTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN RTrim(Cut(s, Len(s) - 1)) ELSE s
LTrim(s) == IF s # <<>> /\ s[1] \in Blank THEN LTrim(From(s, 2)) ELSE s
Trim(s) == LTrim(RTrim(s))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* position of the first c that no comment hides, 0 if there is none; a       *)
(* semicolon opens a comment behind a blank                                   *)
Comments(s) == { i \in 2 .. Len(s) : s[i] = ";" /\ s[i - 1] \in Blank }
Find(s, c) == LET P == { i \in 1 .. Len(s) : s[i] = c }  C == Comments(s)
              IN  IF P = {} THEN 0 ELSE IF C # {} /\ Least(C) < Least(P) THEN 0 ELSE Least(P)
Bare(s) == LET C == Comments(s) IN IF C = {} THEN s ELSE Cut(s, Least(C) - 1)
-----------------------------------------------------------------------------
(* Scan: section and key in force, definitions in order, first bad line       *)
Start == [sec |-> <<>>, key |-> <<>>, defs |-> <<>>, err |-> 0, no |-> 0]
Def(st, k, v) == [st EXCEPT !.defs = Append(@, <<Lower(st.sec), Lower(k), v>>)]
Bad(st) == [st EXCEPT !.err = IF @ = 0 THEN st.no ELSE @]
Line(st0, raw) ==
  LET st == [st0 EXCEPT !.no = @ + 1]
      r == RTrim(raw)
      s == LTrim(r)
  IN  CASE s = <<>> -> st
        [] s # <<>> /\ s[1] \in {";", "#"} -> st
        [] s # <<>> /\ s[1] \notin {";", "#"} /\ Len(s) < Len(r) /\ st.key # <<>> -> Def(st, st.key, RTrim(Bare(s)))
        [] OTHER ->
             IF s[1] = "["
             THEN LET q == Find(From(s, 2), "]")
                  IN  IF q = 0 THEN Bad(st) ELSE [st EXCEPT !.sec = SubSeq(s, 2, q), !.key = <<>>]
             ELSE LET q == Find(s, "=")
                      k == RTrim(Cut(s, q - 1))
                  IN  IF q = 0 THEN Bad(st)
                      ELSE [Def(st, k, Trim(Bare(From(s, q + 1)))) EXCEPT !.key = k]
RECURSIVE ScanFrom(_, _)
ScanFrom(st, doc) == IF doc = <<>> THEN st ELSE ScanFrom(Line(st, doc[1]), From(doc, 2))
Scan(doc) == ScanFrom(Start, doc)
(* the value a key has: the last definition wins                              *)
Has(defs, sec, key) == \E i \in 1 .. Len(defs) : defs[i][1] = Lower(sec) /\ defs[i][2] = Lower(key)
Lookup(defs, sec, key) ==
  LET S == { i \in 1 .. Len(defs) : defs[i][1] = Lower(sec) /\ defs[i][2] = Lower(key) }
  IN  defs[CHOOSE i \in S : \A j \in S : j <= i][3]
-----------------------------------------------------------------------------
(* typed access *)
Digits == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
Hex == [c \in {"a","b","c","d","e","f"} |-> CASE c = "a" -> 10 [] c = "b" -> 11 [] c = "c" -> 12 [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15]
AllDigits(s) == s # <<>> /\ \A i \in 1 .. Len(s) : s[i] \in DOMAIN Digits
RECURSIVE Nat10(_), Nat16(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE 10 * Nat10(Cut(s, Len(s) - 1)) + Digits[s[Len(s)]]
Nat16(s) == IF s = <<>> THEN 0
            ELSE 16 * Nat16(Cut(s, Len(s) - 1)) + (LET c == LowerC(s[Len(s)]) IN IF c \in DOMAIN Digits THEN Digits[c] ELSE Hex[c])
Neg(s) == s # <<>> /\ s[1] = "-"
Unsigned(s) == IF s # <<>> /\ s[1] \in {"-", "+"} THEN From(s, 2) ELSE s
Sign(s) == IF Neg(s) THEN -1 ELSE 1
IsInt(s) == LET u == Unsigned(s) IN AllDigits(u) /\ Len(u) <= 9 /\ (u[1] # "0" \/ Len(u) = 1)
IsHex(s) == LET u == Unsigned(s) IN /\ Len(u) \in 3 .. 8 /\ u[1] = "0" /\ u[2] \in {"x", "X"}
                                    /\ \A i \in 3 .. Len(u) : u[i] \in DOMAIN Digits \/ LowerC(u[i]) \in DOMAIN Hex
IntOf(s) == IF IsInt(s) THEN Sign(s) * Nat10(Unsigned(s)) ELSE Sign(s) * Nat16(From(Unsigned(s), 3))
(* no number in it at all: the caller's default *)
NoNumber(s) == \A i \in 1 .. Len(s) : s[i] \notin DOMAIN Digits /\ LowerC(s[i]) \notin {"i", "n"}
TrueWords  == { <<"1">>, <<"y","e","s">>, <<"t","r","u","e">>, <<"o","n">> }
FalseWords == { <<"0">>, <<"n","o">>, <<"f","a","l","s","e">>, <<"o","f","f">> }
BoolOf(s, d) == IF s \in TrueWords THEN 1 ELSE IF s \in FalseWords THEN 0 ELSE d
(* decimal numbers: sign, digits, point, digits, exponent; the value in       *)
(* millionths when it is small enough to be held                              *)
Pos(s, C) == LET P == { i \in 1 .. Len(s) : s[i] \in C } IN IF P = {} THEN Len(s) + 1 ELSE Least(P)
Decimal(s) ==
  LET u == Unsigned(s)
      x == Pos(u, {"e", "E"})
      m == Cut(u, x - 1)
      d == Pos(m, {"."})
      w == Cut(m, d - 1)  f == From(m, d + 1)
      e == From(u, x + 1)
  IN  [ok |-> /\ \A i \in 1 .. Len(w) : w[i] \in DOMAIN Digits
              /\ \A i \in 1 .. Len(f) : f[i] \in DOMAIN Digits
              /\ w \o f # <<>>
              /\ (x > Len(u) \/ (AllDigits(Unsigned(e)) /\ Len(Unsigned(e)) <= 2)),
       dig |-> w \o f, exp |-> (IF x > Len(u) \/ ~AllDigits(Unsigned(e)) THEN 0 ELSE Sign(e) * Nat10(Unsigned(e))) - Len(f), sign |-> Sign(s)]
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Held(D) == D.ok /\ Len(D.dig) <= 7 /\ 6 + D.exp >= 0 /\ 6 + D.exp + Len(D.dig) <= 9
Micro(D) == D.sign * Nat10(D.dig) * Pow10(6 + D.exp)
-----------------------------------------------------------------------------
(* documents as they are meant *)
Render(l) ==
  CASE l.k = "section" -> <<"[">> \o l.name \o <<"]">> \o l.tail
    [] l.k = "entry" -> l.lead \o l.name \o l.b1 \o <<"=">> \o l.b2 \o l.val \o l.tail
    [] l.k = "more" -> <<" ">> \o l.lead \o l.val \o l.tail
    [] l.k = "comment" -> l.lead \o l.text
    [] l.k = "blank" -> l.lead
    [] l.k = "bad" -> l.text
RECURSIVE MeantFrom(_, _)
MeantFrom(st, ls) ==
  IF ls = <<>> THEN st
  ELSE LET l == ls[1]
           s1 == [st EXCEPT !.no = @ + 1]
           s2 == CASE l.k = "section" -> [s1 EXCEPT !.sec = l.name, !.key = <<>>]
                   [] l.k = "entry" -> [Def(s1, l.name, l.val) EXCEPT !.key = l.name]
                   [] l.k = "more" -> Def(s1, st.key, l.val)
                   [] l.k \in {"comment", "blank"} -> s1
                   [] l.k = "bad" -> Bad(s1)
       IN  MeantFrom(s2, From(ls, 2))
Meant(ls) == MeantFrom(Start, ls)
(* an indented line belongs to the entry above it: these can only be written  *)
(* where they say what they mean                                              *)
Fits(ls, l) ==
  LET st == Meant(ls)
  IN  CASE l.k = "more" -> st.key # <<>>
        [] l.k = "entry" -> st.key = <<>> \/ l.lead = <<>>
        [] OTHER -> TRUE
=============================================================================
