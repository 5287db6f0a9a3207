SPECIFICATION Spec
CONSTANTS
  MaxN2 = 3
  MaxN3 = 2
  Deep = FALSE
INVARIANTS AveragesKept SlopesAreTheLimited WithinNeighbours Twice LinearLeftAlone Admissible NotWithoutNeed
CHECK_DEADLOCK FALSE
