SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Alg = "open"
  Exists = FALSE
  Noticed = FALSE
  MaxVal = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
