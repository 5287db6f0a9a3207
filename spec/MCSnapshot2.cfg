SPECIFICATION Spec
INVARIANTS Complete LoadsBack
CHECK_DEADLOCK FALSE
CONSTANTS
  Per <- Per1
  M <- M1
  Layouts <- Kinds
  Readers <- R1
  Dim = 2
  W <- W1
