SPECIFICATION Spec
CONSTANTS
  Size = 3
  Crashes = 0
  Sparse = FALSE
  Variant = "passive"
INVARIANTS Recorded BesideTic Gone NotLost Undue Back Once
PROPERTIES AllHave Rest
CHECK_DEADLOCK FALSE
