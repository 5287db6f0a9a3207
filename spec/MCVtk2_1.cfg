CONSTANTS
 N <- N2
 M <- M2
 Dim = 2
 NV = 2
 Nd = 1
 Word = 8
 Count = 8
SPECIFICATION Spec
INVARIANT OffsetsTrue
INVARIANT ReadBack
INVARIANT SubCellsTile
CHECK_DEADLOCK FALSE
