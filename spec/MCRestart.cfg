CONSTANTS
 Mod = 4
 TEnds = {7, 12}
 NOuts = {1, 2, 4, 9}
 MaxCrash = 2
 Reset = FALSE
SPECIFICATION Spec
INVARIANT OnTrack
INVARIANT SameFiles
INVARIANT RealStates
INVARIANT Counter
PROPERTY Finishes
CHECK_DEADLOCK TRUE
