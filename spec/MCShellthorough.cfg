SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Flaw = "none"
  MaxLines = 7
INVARIANTS C18
PROPERTIES C18Letter C18Name C18Others
