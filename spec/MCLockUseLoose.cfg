SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
Things = {"af", "ff"}
Early = TRUE
Loose = TRUE
Break = FALSE
INVARIANTS NothingLost NoneLeft
CHECK_DEADLOCK FALSE
