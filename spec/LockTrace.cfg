SPECIFICATION Spec
CONSTANT Procs = {0, 1, 2, 3, 4}
INVARIANT Mutex
CHECK_DEADLOCK FALSE
