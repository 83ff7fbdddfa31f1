SPECIFICATION Spec
CONSTANTS
  MaxDay = 3
  MaxLen = 4
  Age = 1
INVARIANTS Remembered InText Sorted
PROPERTIES Whole
CHECK_DEADLOCK FALSE
