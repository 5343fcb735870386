SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Names <- All3
  Guard = TRUE
  Deletes = "exact"
  MaxSteps = 4
INVARIANTS C16 C17
