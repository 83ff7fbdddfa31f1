SPECIFICATION Spec
CONSTANTS
  N = 5
  None = 0
  Part = 99
CHECK_DEADLOCK FALSE
