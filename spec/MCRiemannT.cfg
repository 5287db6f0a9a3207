SPECIFICATION Spec
INVARIANTS Consistent Laws Contacts Rotations Edges
CHECK_DEADLOCK FALSE
CONSTANTS
  NL = 60
  NR = 8
