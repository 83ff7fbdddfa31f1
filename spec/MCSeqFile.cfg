SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Alg = "open"
  Exists = TRUE
  Noticed = TRUE
  MaxVal = 6
INVARIANT Inv
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
