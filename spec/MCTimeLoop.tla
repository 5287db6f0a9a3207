---- MODULE MCTimeLoop ----
EXTENDS TimeLoop
NOutsDef == {-1, 0, 1, 2, 4}
====
