SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Flaw = "none"
  MaxCalls = 6
INVARIANTS C22
