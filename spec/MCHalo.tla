------------------------------ MODULE MCHalo ------------------------------
EXTENDS Halo
T2(m, n, bc) == [dim |-> 2, m |-> m, n |-> n, bc |-> bc]
Bx == { <<1,1>>, <<2,1>>, <<3,3>> }
By == { <<1,2>>, <<2,2>>, <<3,3>> }
MCTopos == { T2(<<mx, my, 1>>, <<2, 3, 1>>, <<bx[1], bx[2], by[1], by[2], 0, 0>>) :
               mx \in 1..2, my \in 1..2, bx \in Bx, by \in By }
           \cup { T2(<<3, 1, 1>>, <<2, 2, 1>>, <<1, 2, 3, 3, 0, 0>>) }
           \cup { [dim |-> 3, m |-> <<2, 1, 1>>, n |-> <<2, 2, 2>>, bc |-> b] :
                     b \in { <<1,2,3,3,2,1>>, <<3,3,1,1,3,3>> } }
MCN == <<1, 1, 1>>
===========================================================================
