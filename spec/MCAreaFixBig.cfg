SPECIFICATION Spec
CONSTANTS
  MaxDay = 4
  WithNew = TRUE
INVARIANTS Unique Stable InStep Served
PROPERTIES Rights Asking
VIEW State
CHECK_DEADLOCK FALSE
