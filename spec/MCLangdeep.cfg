SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Reader = "true"
  Builder = "true"
  MaxParts = 4
  MaxStmts = 1
  MaxFaults = 1
  Deep = TRUE
  Places1 = FALSE
  Telling = FALSE
INVARIANTS
  Language
