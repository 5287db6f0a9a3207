SPECIFICATION TraceSpec
CONSTANTS
  MaxM = 1
  BCs = {}
  CellsPerProc = 1
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
