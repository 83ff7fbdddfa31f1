CONSTANTS Variant = "once"
 MaxLines = 3
 Groups3 = FALSE
SPECIFICATION Spec
INVARIANTS RightAreas Whole Numbered Small InOne Address Agrees
CHECK_DEADLOCK FALSE
