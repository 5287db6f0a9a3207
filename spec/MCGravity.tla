---- MODULE MCGravity ----
EXTENDS Gravity
FluxesDef == {0, 1}
GsDef == {-1, 2}
FluxesT == {-1, 0, 1}
GsT == {-1, 0, 2}
====
