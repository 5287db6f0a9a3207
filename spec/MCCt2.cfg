SPECIFICATION Spec
CONSTANTS
  NX = 3
  NY = 2
  NZ = 1
  EVals = {1, 3}
  MaxEdges = 7
  Two = TRUE
INVARIANTS DivFree FluxConst FineDivFree
CHECK_DEADLOCK FALSE
