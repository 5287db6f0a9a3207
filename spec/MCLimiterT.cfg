SPECIFICATION Spec
CONSTANTS
  MaxN2 = 4
  MaxN3 = 3
  Deep = TRUE
INVARIANTS AveragesKept SlopesAreTheLimited WithinNeighbours Twice LinearLeftAlone Admissible NotWithoutNeed
CHECK_DEADLOCK FALSE
