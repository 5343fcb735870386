SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builder = "shared"
  Deep = FALSE
  Telling = FALSE
INVARIANTS
  C21 C27 Growing
