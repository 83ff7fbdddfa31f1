SPECIFICATION Spec
CONSTANTS
  Size = 4
  Crashes = 1
  Sparse = TRUE
  Variant = ""
INVARIANTS Recorded BesideTic Gone NotLost Undue Back Once

CHECK_DEADLOCK FALSE
