SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Names <- Few
  Guard = TRUE
  Deletes = "prefix"
  MaxSteps = 4
INVARIANTS C16
