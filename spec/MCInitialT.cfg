CONSTANT Every = 7
INIT Init
NEXT Next
INVARIANTS Admissible Solenoidal Hydrostatic Balance Layers Quadrants Eigen
CHECK_DEADLOCK FALSE
