INIT Init
NEXT Next
INVARIANTS Identities Sanity
CHECK_DEADLOCK FALSE
