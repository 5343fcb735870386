SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Flaw = "partial"
  MaxCalls = 4
INVARIANTS C22
