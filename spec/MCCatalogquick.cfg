SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Names <- Few
  Guard = TRUE
  Deletes = "exact"
  MaxSteps = 5
INVARIANTS C16 C17
