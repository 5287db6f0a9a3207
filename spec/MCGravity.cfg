SPECIFICATION Spec
INVARIANTS TotalImpulse FluxesCancel KineticWork NoGravityNoChange FreeFall
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Fluxes <- FluxesDef
  Gs <- GsDef
