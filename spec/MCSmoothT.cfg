SPECIFICATION Spec
CONSTANTS
  Pairs = TRUE
INVARIANTS Conservation Solenoidal Galilei Axes
CHECK_DEADLOCK FALSE
