SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builder = "every"
  Deep = FALSE
  Telling = FALSE
INVARIANTS
  C21 C27 Growing
