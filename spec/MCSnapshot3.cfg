SPECIFICATION Spec
INVARIANTS Complete LoadsBack
CHECK_DEADLOCK FALSE
CONSTANTS
  Per <- Per3
  M <- M3
  Layouts <- Kinds
  Readers <- R3
  Dim = 3
  W <- W3
