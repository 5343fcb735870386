SPECIFICATION Spec
SYMMETRY Alike
CHECK_DEADLOCK FALSE
CONSTANTS
  Sessions = {s1, s2, s3}
  Ops = {"new", "del", "make"}
  MaxOps = 4
  MaxKills = 0
  Catalog = TRUE
  Verify = FALSE
  Whole = TRUE
INVARIANTS C26
