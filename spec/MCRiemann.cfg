SPECIFICATION Spec
INVARIANTS Consistent Laws Contacts Rotations Edges
CHECK_DEADLOCK FALSE
CONSTANTS
  NL = 9
  NR = 2
