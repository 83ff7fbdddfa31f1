SPECIFICATION Spec
CONSTANTS
  N = 3
  None = None
  Part = Part
  Procs = {1, 2, 3}
  Variant = ""
INVARIANTS Whole NoLoss Backups
CHECK_DEADLOCK FALSE
