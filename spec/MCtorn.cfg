SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Makes <- MakesSmall
  Finds <- FindsSmall
  MaxQueries = 3
  Order = "safe"
  Atomic = FALSE
  Cached = FALSE
  Lock = "whole"
  Sessions = {1}
  MaxFaults = 1
INVARIANTS
  C14
