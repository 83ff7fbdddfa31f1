SPECIFICATION Spec
CONSTANTS
  MaxDay = 2
  WithNew = FALSE
INVARIANTS Unique Stable InStep Served
PROPERTIES Rights Asking
VIEW State
CHECK_DEADLOCK FALSE
