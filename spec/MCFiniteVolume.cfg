SPECIFICATION Spec
CONSTANTS
  NX = 2
  NY = 2
  Vals = {0, 3}
  Kinds = {"periodic", "wall"}
  Modes = {"arbitrary", "consistent"}
INVARIANTS FluxLegal Conserved StaysUniform
CHECK_DEADLOCK FALSE
