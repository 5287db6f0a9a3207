---- MODULE MCVtk ----
EXTENDS Vtk
N2 == <<2, 3, 1>>
M2 == <<2, 2, 1>>
N3 == <<2, 1, 3>>
M3 == <<1, 2, 2>>
====
