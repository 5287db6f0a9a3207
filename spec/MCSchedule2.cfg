SPECIFICATION Spec
CONSTANTS NI = 2 NA = 2 MaxOps = 6
INVARIANT CleanMeansDeterministic
CHECK_DEADLOCK FALSE
