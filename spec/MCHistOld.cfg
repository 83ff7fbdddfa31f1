SPECIFICATION Spec
CONSTANTS
  MaxDay = 3
  MaxLen = 3
  Age = 1
  Recover <- NoRecovery
INVARIANTS Remembered InText Sorted
PROPERTIES Whole
CHECK_DEADLOCK FALSE
