SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Usable Local Measures Distinct
CHECK_DEADLOCK FALSE
