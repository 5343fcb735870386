SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Makes <- MakesSmall
  Finds <- FindsSmall
  MaxQueries = 3
  Order = "safe"
  Atomic = TRUE
  Cached = FALSE
  Lock = "whole"
  Sessions = {1}
  MaxFaults = 1
INVARIANTS
  C01 C02 C03 C04 C05 C06 C07 C08 C09 C14 C19 C20 Accepted
