SPECIFICATION Spec
CONSTANTS
  Size = 3
  Crashes = 1
  Sparse = FALSE
  Variant = "record"
INVARIANTS Recorded BesideTic Gone NotLost Undue Back Once
PROPERTIES AllHave
CHECK_DEADLOCK FALSE
