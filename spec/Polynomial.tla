----------------------------- MODULE Polynomial -----------------------------
(* Polynomials in x, y, z with the numbers of Fixed.tla as coefficients: a     *)
(* function from triples of exponents.                                         *)
EXTENDS Fun, FiniteSets
PolyZero == [e \in {<<0, 0, 0>>} |-> O]
Const(a) == [e \in {<<0, 0, 0>>} |-> a]
Coordinate(d) == [e \in {<<IF d = 1 THEN 1 ELSE 0, IF d = 2 THEN 1 ELSE 0, IF d = 3 THEN 1 ELSE 0>>} |-> I(1)]
Coef(f, e) == IF e \in DOMAIN f THEN f[e] ELSE O
(* without the coefficients that are zero *)
Trim(f) == LET S == {e \in DOMAIN f : f[e] # O} IN IF S = {} THEN PolyZero ELSE TLCEval([e \in S |-> f[e]])
PPlus(f, g) == TLCEval([e \in DOMAIN f \cup DOMAIN g |-> Plus(Coef(f, e), Coef(g, e))])
PMinus(f, g) == TLCEval([e \in DOMAIN f \cup DOMAIN g |-> Minus(Coef(f, e), Coef(g, e))])
PScale(f, a) == TLCEval([e \in DOMAIN f |-> Times(f[e], a)])
PBy(f, k) == TLCEval([e \in DOMAIN f |-> By(f[e], k)])
ESum(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
EDiff(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
RECURSIVE SumOver(_, _, _, _)
SumOver(f, g, e, S) == IF S = {} THEN O
                       ELSE LET a == CHOOSE x \in S : TRUE IN Plus(Times(f[a], g[EDiff(e, a)]), SumOver(f, g, e, S \ {a}))
PTimes(f, g) ==
  LET D == {ESum(a, b) : a \in DOMAIN f, b \in DOMAIN g}
  IN  TLCEval([e \in D |-> SumOver(f, g, e, {a \in DOMAIN f : EDiff(e, a) \in DOMAIN g})])
Lower(e, d) == [e EXCEPT ![d] = @ - 1]
PDiff(f, d) == LET S == {e \in DOMAIN f : e[d] > 0}
               IN  IF S = {} THEN PolyZero ELSE TLCEval([e \in {Lower(x, d) : x \in S} |-> LET x == [e EXCEPT ![d] = @ + 1] IN By(f[x], x[d])])
Degree(f, d) == LET S == {e \in DOMAIN f : f[e] # O} IN IF S = {} THEN 0 ELSE LET m == CHOOSE e \in S : \A x \in S : x[d] <= e[d] IN m[d]
RECURSIVE PSum(_, _)
PSum(s, i) == IF i > Len(s) THEN PolyZero ELSE IF i = Len(s) THEN s[i] ELSE PPlus(s[i], PSum(s, i + 1))
(* value at a point given the powers of its coordinates: w[d][k + 1] is the k-th power *)
RECURSIVE PowersIn(_, _, _)
PowersIn(x, k, s) == IF k = 0 THEN s ELSE PowersIn(x, k - 1, Append(s, Times(x, s[Len(s)])))
Powers(x, k) == PowersIn(x, k, <<I(1)>>)
Part(w, d, k) == w[d][k + 1]
RECURSIVE ValueAt(_, _, _)
ValueAt(f, w, S) == IF S = {} THEN O
                    ELSE LET e == CHOOSE x \in S : TRUE
                         IN  Plus(Times(f[e], Times(Part(w, 1, e[1]), Times(Part(w, 2, e[2]), Part(w, 3, e[3])))), ValueAt(f, w, S \ {e}))
PValue(f, w) == ValueAt(f, w, DOMAIN f)
(* from a list of <<exponents, coefficient>> *)
FromList(l) == Trim([e \in {l[i][1] : i \in DOMAIN l} |-> LET i == CHOOSE j \in DOMAIN l : l[j][1] = e IN l[i][2]])
=============================================================================
