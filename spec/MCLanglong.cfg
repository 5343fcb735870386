SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Reader = "true"
  Builder = "true"
  MaxParts = 14
  MaxStmts = 3
  MaxFaults = 1
  Deep = TRUE
  Places1 = FALSE
  Telling = TRUE
INVARIANTS
  Language Tell
