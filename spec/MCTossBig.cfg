SPECIFICATION Spec
CONSTANTS
 MaxLinks = 3
 Seens = "few"
 Paths = "few"
 OptSets = "all"
 Uplinks = {1, 2}
 Hists = FALSE
INVARIANTS OnlyDue AllDue OnceEach OwnCopy SeenGrows PathGrows NoLoop NeverUnauthorised NoDupe NotPoisoned TossedIsRecorded Accounted
CHECK_DEADLOCK FALSE
