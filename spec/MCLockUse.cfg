SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
Things = {"af", "ff"}
Early = FALSE
Loose = FALSE
Break = FALSE
INVARIANTS NothingLost NoneLeft
CHECK_DEADLOCK FALSE
