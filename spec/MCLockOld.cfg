SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Alg = "open"
  Stale = TRUE
  MaxIno = 5
  MayDie = TRUE
SYMMETRY Sym
INVARIANT Inv
CHECK_DEADLOCK FALSE
