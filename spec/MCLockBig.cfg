SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3, p4}
  Alg = "excl"
  Stale = TRUE
  MaxIno = 6
  MayDie = TRUE
SYMMETRY Sym
INVARIANT Inv
CHECK_DEADLOCK FALSE
