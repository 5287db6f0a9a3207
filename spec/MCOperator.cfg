SPECIFICATION Spec
CONSTANTS
  MaxDeg = 2
  Rich = FALSE
INVARIANTS Calculus Euler Viscosity TimeMethods
CHECK_DEADLOCK FALSE
