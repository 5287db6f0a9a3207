SPECIFICATION Spec
CONSTANTS
  NX = 2
  NY = 2
  NZ = 2
  EVals = {1, 3}
  MaxEdges = 3
  Two = FALSE
INVARIANTS DivFree FluxConst FineDivFree
CHECK_DEADLOCK FALSE
