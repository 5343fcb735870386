SPECIFICATION Spec
SYMMETRY Alike
CHECK_DEADLOCK FALSE
CONSTANTS
  Sessions = {s1}
  Ops = {"new", "del", "make", "open"}
  MaxOps = 2
  MaxKills = 1
  Catalog = TRUE
  Verify = TRUE
  Whole = FALSE
INVARIANTS C25
