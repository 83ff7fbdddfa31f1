SPECIFICATION Spec
CONSTANTS
  Size = 3
  Crashes = 0
  Sparse = FALSE
  Variant = "tic"
INVARIANTS Recorded BesideTic Gone NotLost Undue Back Once

CHECK_DEADLOCK FALSE
