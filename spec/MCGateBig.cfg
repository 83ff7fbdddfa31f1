CONSTANTS Variant = ""
 MaxLines = 5
 Groups3 = TRUE
SPECIFICATION Spec
INVARIANTS RightAreas Whole Numbered Small InOne Address Agrees
CHECK_DEADLOCK FALSE
