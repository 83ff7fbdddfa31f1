SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Alg = "open"
  Exists = FALSE
  Noticed = TRUE
  MaxVal = 4
INVARIANT Inv
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
