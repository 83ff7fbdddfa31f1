SPECIFICATION Spec
CONSTANTS
  MaxDay = 2
  WithNew = FALSE
  Ask <- Silent
INVARIANTS Unique Stable InStep Served
PROPERTIES Rights Asking
VIEW State
CHECK_DEADLOCK FALSE
