SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builder = "keep"
  Deep = FALSE
  Telling = FALSE
INVARIANTS
  C21 C27 Growing
