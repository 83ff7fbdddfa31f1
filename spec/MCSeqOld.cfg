SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Alg = "trunc"
  Exists = FALSE
  Noticed = TRUE
  MaxVal = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
