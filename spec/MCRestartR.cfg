CONSTANTS
 Mod = 4
 TEnds = {7, 12}
 NOuts = {1, 2, 4, 9}
 MaxCrash = 2
 Reset = TRUE
SPECIFICATION Spec
INVARIANT OnTrack
CHECK_DEADLOCK TRUE
