CONSTANTS Variant = ""
 MaxLines = 2
 Groups3 = FALSE
SPECIFICATION LiveSpec
PROPERTY Done
CHECK_DEADLOCK FALSE
