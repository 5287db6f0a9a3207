------------------------------ MODULE MCParams ------------------------------
(* Editing a settings document key by key: every document of the editor        *)
(* resolves to a usable set of parameters, spelling a default out changes      *)
(* nothing, and a key changes nothing but what it documents.                   *)
EXTENDS Params, FiniteSets
VARIABLES doc
Choosing == {"riemann", "impl", "nx", "nz", "noutput", "bxmin", "bzmax"}
Measuring == {"nx", "nz", "xmax", "gamma0", "smallc", "slope"}
Keys == Choosing \cup Measuring
All == {"solver", "ny", "xmin", "ymin", "zmin", "ymax", "zmax", "bxmax", "bymin", "bymax", "bzmin", "nstepmax", "nlog", "iorder", "niter",
        "tend", "cfl", "smallr", "cp", "mu", "kappa"} \cup Keys
Choices(k) == CASE k = "riemann" -> RiemannNames \cup {"exact"}
                [] k = "impl" -> {0, 1, 2, 3}
                [] k \in {"nx", "nz"} -> {1, 6}
                [] k = "xmax" -> {I(1), I(3)}
                [] k = "gamma0" -> {Dec(14, 1), I(2)}
                [] k = "smallc" -> {Least, I(1)}
                [] k = "slope" -> {O, I(1), I(3), Dec(15, 1)}
                [] k = "noutput" -> {0, 100}
                [] OTHER -> {1, 3}
Defaults == [riemann |-> "approx", impl |-> 0, nx |-> 1, nz |-> 1, xmax |-> I(1), gamma0 |-> Dec(14, 1), smallc |-> Least, slope |-> I(1), noutput |-> 100,
             bxmin |-> 1, bzmax |-> 1]
M == <<1, 1, 1>>
CONSTANT Depth
Named == {k \in Keys : doc[k] # <<>>}
Init == \E s \in Schemes : doc = [k \in All |-> IF k = "solver" THEN s ELSE <<>>]
(* the measures do not depend on the scheme: they are edited for one of them *)
Editable == IF doc.solver = "MHD_Muscl_3D" THEN Keys ELSE Choosing
Next == \E k \in Editable : /\ Cardinality(Named) < Depth \/ doc[k] # <<>>
                            /\ \E v \in Choices(k) : doc' = [doc EXCEPT ![k] = <<v>>]
Spec == Init /\ [][Next]_doc
W == Whole(doc)
Usable == LET R == W
          IN  /\ R.riemann \in {RiemannCode(n) : n \in IF R.mhd THEN ForMhd ELSE ForHydro}
              /\ R.impl \in {0, 1} \cup (IF R.mhd THEN {2} ELSE {})
              /\ R.gw >= 1 /\ R.isize > 2 * R.gw /\ R.nbvar = Len(Fields(SchemeOf(doc.solver)))
              /\ R.output = (R.noutput # 0)
              /\ Fits(doc, M, 1) /\ ~Fits(doc, M, 2)
(* a default, written down, means what its absence means, and a key changes nothing but what it documents *)
Reach(k) == CASE k = "riemann" -> {"riemann"} [] k = "impl" -> {"impl"} [] k = "nx" -> {"nx", "isize"} [] k = "nz" -> {"nz", "ksize"}
              [] k = "noutput" -> {"noutput", "output"} [] OTHER -> {"bc"}
Local == LET R == W
         IN  \A k \in Choosing : \A v \in Choices(k) :
               LET S == Whole([doc EXCEPT ![k] = <<v>>])
               IN  /\ \A f \in DOMAIN R \ Reach(k) : R[f] = S[f]
                   /\ doc[k] = <<>> /\ v = Defaults[k] => R = S
(* the same for the measures *)
ReachReal(k) == CASE k = "nx" -> {"dx"} [] k = "nz" -> {"dz"} [] k = "xmax" -> {"xmax", "dx"} [] k = "gamma0" -> {"gamma0", "gamma6", "smallp", "smallpp"}
                  [] k = "smallc" -> {"smallc", "smallp", "smallpp"} [] k = "slope" -> {"slope"}
Measures == doc.solver = "MHD_Muscl_3D" /\ Named \subseteq Measuring =>
         LET R == Real(doc, M)
         IN  /\ Pos(R.dx) /\ Close(By(R.dx, W.nx), Minus(R.xmax, R.xmin), I(1), 20)
             /\ \A k \in Measuring : \A v \in Choices(k) :
               LET S == Real([doc EXCEPT ![k] = <<v>>], M)
               IN  /\ \A f \in DOMAIN R \ ReachReal(k) : R[f] = S[f]
                   /\ doc[k] = <<>> /\ v = Defaults[k] => R = S
(* schemes with different names are different *)
Distinct == \A s \in Schemes : s # doc.solver => SchemeOf(s) # SchemeOf(doc.solver)
=============================================================================
