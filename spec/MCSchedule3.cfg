SPECIFICATION Spec
CONSTANTS NI = 3 NA = 2 MaxOps = 2
INVARIANT CleanMeansDeterministic
CHECK_DEADLOCK FALSE
