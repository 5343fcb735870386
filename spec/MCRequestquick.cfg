SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builder = "true"
  Deep = FALSE
  Telling = FALSE
INVARIANTS
  C21 C27 Growing
