SPECIFICATION TraceSpec
CONSTANTS
  MaxM = 1
  BCs = {}
  CellsPerProc = 1
  G = 1
  HaloTopos = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
