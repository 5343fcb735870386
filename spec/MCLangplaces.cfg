SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Reader = "true"
  Builder = "true"
  MaxParts = 4
  MaxStmts = 1
  MaxFaults = 1
  Deep = FALSE
  Places1 = TRUE
  Telling = FALSE
INVARIANTS
  Language
