SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Flaw = "inplace"
  MaxCalls = 4
INVARIANTS C22
