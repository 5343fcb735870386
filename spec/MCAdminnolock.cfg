SPECIFICATION Spec
SYMMETRY Alike
CHECK_DEADLOCK FALSE
CONSTANTS
  Sessions = {s1, s2}
  Ops = {"new", "del", "make", "open"}
  MaxOps = 2
  MaxKills = 0
  Catalog = FALSE
  Verify = TRUE
  Whole = TRUE
INVARIANTS C26
