SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Makes <- MakesSmall
  Finds <- FindsSmall
  MaxQueries = 3
  Order = "old"
  Atomic = TRUE
  Cached = FALSE
  Lock = "whole"
  Sessions = {1, 2}
  MaxFaults = 0
INVARIANTS
  C23
