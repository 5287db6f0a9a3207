CONSTANT Every = 29
INIT Init
NEXT Next
INVARIANTS Admissible Solenoidal Hydrostatic Balance Layers Quadrants Eigen
CHECK_DEADLOCK FALSE
