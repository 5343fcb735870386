SPECIFICATION Spec
SYMMETRY Alike
CHECK_DEADLOCK FALSE
CONSTANTS
  Sessions = {s1, s2}
  Ops = {"new", "del", "make", "open"}
  MaxOps = 3
  MaxKills = 1
  Catalog = TRUE
  Verify = TRUE
  Whole = TRUE
INVARIANTS C25 C26 NoWait
