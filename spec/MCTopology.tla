---------------------------- MODULE MCTopology ----------------------------
EXTENDS Topology
MCBCs == { <<a, b, c, d, 1, 3>> : a \in {1,3}, b \in {2,3}, c \in {2}, d \in {1,3} }
MCN == <<3, 2, 4>>
Small == NProcs(topo) <= 6
===========================================================================
