SPECIFICATION Spec
CONSTANTS
 MaxLinks = 1
 Seens = "few"
 Paths = "few"
 OptSets = "few"
 Uplinks = {1, 2}
 Hists = TRUE
INVARIANTS OnlyDue AllDue OnceEach OwnCopy SeenGrows PathGrows NoLoop NeverUnauthorised NoDupe NotPoisoned TossedIsRecorded Accounted
CHECK_DEADLOCK FALSE
