SPECIFICATION Spec
CONSTANTS
 N = 5
 Dupes = {TRUE}
 Paths = {FALSE}
INVARIANTS AtMostOnce WellFormed Everybody NobodyElse
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
