SPECIFICATION HSpec
CONSTANTS
  MaxM = 1
  BCs = {}
  CellsPerProc <- MCN
  G = 2
  HaloTopos <- MCTopos
INVARIANTS GhostsPrescribed InteriorUntouched NoDeadlock
PROPERTY Terminates
CHECK_DEADLOCK FALSE
