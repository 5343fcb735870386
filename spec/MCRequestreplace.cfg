SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Builder = "replace"
  Deep = FALSE
  Telling = FALSE
INVARIANTS
  C21 C27 Growing
