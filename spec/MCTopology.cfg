SPECIFICATION TSpec
CONSTANTS
  MaxM = 3
  BCs <- MCBCs
  CellsPerProc <- MCN
INVARIANTS Reciprocal Disjoint Covers Physical Matched
CHECK_DEADLOCK FALSE
CONSTRAINT Small
