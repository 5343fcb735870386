SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Flaw = "replace"
  MaxCalls = 4
INVARIANTS C22
