CONSTANT Every = 1
INIT Init
NEXT Next
INVARIANTS Resolved Single Identity Turned Continues Grows Moves Fed
CHECK_DEADLOCK FALSE
