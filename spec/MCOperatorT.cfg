SPECIFICATION Spec
CONSTANTS
  MaxDeg = 3
  Rich = TRUE
INVARIANTS Calculus Euler Viscosity TimeMethods
CHECK_DEADLOCK FALSE
