SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Usable Local Measures Distinct
CHECK_DEADLOCK FALSE
