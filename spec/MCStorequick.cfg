SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Flaw = "none"
  MaxCalls = 4
INVARIANTS C22
