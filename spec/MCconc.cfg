SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Makes <- MakesSmall
  Finds <- FindsSmall
  MaxQueries = 3
  Order = "safe"
  Atomic = TRUE
  Cached = FALSE
  Lock = "whole"
  Sessions = {1, 2}
  MaxFaults = 1
INVARIANTS
  C01 C02 C03 C05 C07 C14 C23 C24 Accepted
