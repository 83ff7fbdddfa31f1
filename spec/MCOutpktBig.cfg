SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Keys = {1, 2}
  Wrap = 5
  MaxPut = 3
  Faults = 1
  Seqs = {0, 1, 2, 3, 4}
INVARIANTS PublishedComplete OnlyDue AllDue NoTmp
PROPERTY NeverOverwritten
CHECK_DEADLOCK FALSE
