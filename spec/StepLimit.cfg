SPECIFICATION Spec
INVARIANT Agreed
CHECK_DEADLOCK FALSE
CONSTANTS
  NP = 2
  NC = 2
  WMax = 3
  TEnd = 9
