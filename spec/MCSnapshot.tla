---- MODULE MCSnapshot ----
EXTENDS Snapshot
Per1 == <<2, 3, 1>>
M1 == <<2, 2, 1>>
W1 == <<1, 1, 0>>
R1 == {<<1, 1, 1>>, <<2, 2, 1>>, <<4, 1, 1>>, <<1, 3, 1>>, <<2, 1, 1>>}
Per3 == <<2, 1, 2>>
M3 == <<1, 2, 2>>
W3 == <<1, 1, 1>>
R3 == {<<1, 1, 1>>, <<1, 2, 2>>, <<2, 1, 4>>, <<1, 2, 1>>}
====
