SPECIFICATION Spec
CONSTANTS
  Size = 3
  Crashes = 1
  Sparse = FALSE
  Variant = ""
INVARIANTS Recorded BesideTic Gone NotLost Undue Back Once
PROPERTIES AllHave Rest
CHECK_DEADLOCK FALSE
