SPECIFICATION FairSpec
CONSTANTS
  Procs = {p1, p2}
  Alg = "excl"
  Stale = TRUE
  MaxIno = 4
  MayDie = TRUE
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
