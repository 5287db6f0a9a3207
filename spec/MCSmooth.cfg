SPECIFICATION Spec
CONSTANTS
  Pairs = FALSE
INVARIANTS Conservation Solenoidal Galilei Axes
CHECK_DEADLOCK FALSE
