SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Flaw = "errors"
  MaxLines = 6
INVARIANTS C18
PROPERTIES C18Letter C18Name C18Others
