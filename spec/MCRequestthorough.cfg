SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builder = "true"
  Deep = TRUE
  Telling = FALSE
INVARIANTS
  C21 C27 Growing
