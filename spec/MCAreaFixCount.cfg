SPECIFICATION Spec
CONSTANTS
  MaxDay = 2
  WithNew = FALSE
  Total <- Counting
INVARIANTS Unique Stable InStep Served
PROPERTIES Rights Asking
VIEW State
CHECK_DEADLOCK FALSE
