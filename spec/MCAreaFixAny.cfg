SPECIFICATION Spec
CONSTANTS
  MaxDay = 2
  WithNew = FALSE
  May <- AnyRight
INVARIANTS Unique Stable InStep Served
PROPERTIES Rights Asking
VIEW State
CHECK_DEADLOCK FALSE
