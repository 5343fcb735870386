SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Makes <- MakesSmall
  Finds <- FindsSmall
  MaxQueries = 3
  Order = "safe"
  Atomic = TRUE
  Cached = FALSE
  Lock = "late"
  Sessions = {1, 2}
  MaxFaults = 0
INVARIANTS
  C24
