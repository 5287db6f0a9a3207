SPECIFICATION Spec
CONSTANTS
  N = 4
  Vals = {0, 1}
  MaxStep = 2
  Cuts = {1, 2, 4}
  BCKinds = {"periodic", "outflow"}
  Variants = {"faces", "cells"}
INVARIANTS EqualsReference AgreeOnSteps Conserved NoDeadlock Equivariant
CHECK_DEADLOCK FALSE
