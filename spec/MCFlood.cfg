SPECIFICATION Spec
CONSTANTS
 N = 4
 Dupes = {TRUE, FALSE}
 Paths = {TRUE, FALSE}
INVARIANTS AtMostOnce WellFormed Everybody NobodyElse
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
