SPECIFICATION Spec
CONSTANTS
  Size = 3
  Crashes = 1
  Sparse = FALSE
  Variant = "early"
INVARIANTS Recorded BesideTic Gone NotLost Undue Back Once

CHECK_DEADLOCK FALSE
