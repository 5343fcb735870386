SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Names <- Few
  Guard = FALSE
  Deletes = "exact"
  MaxSteps = 3
INVARIANTS C16
