INIT Init
NEXT Next
CONSTANT Count = 12
INVARIANT SameDigits
CHECK_DEADLOCK FALSE
