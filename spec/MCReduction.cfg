SPECIFICATION Spec
CONSTANTS N = 4 K = 2 T = 3
INVARIANT ResultIsLargest
CHECK_DEADLOCK FALSE
