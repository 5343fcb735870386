SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Reader = "greedy"
  Builder = "true"
  MaxParts = 4
  MaxStmts = 2
  MaxFaults = 1
  Deep = FALSE
  Places1 = FALSE
  Telling = FALSE
INVARIANTS
  Language
