SPECIFICATION Spec
CONSTANTS
  Cells = 3
  Rho = {1, 2, 5}
  S = 4
  Limit = 4
INVARIANTS Positive
CHECK_DEADLOCK FALSE
