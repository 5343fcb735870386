SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Makes <- MakesSmall
  Finds <- FindsSmall
  MaxQueries = 3
  Order = "safe"
  Atomic = TRUE
  Cached = TRUE
  Lock = "whole"
  Sessions = {1, 2}
  MaxFaults = 0
INVARIANTS
  Accepted
