SPECIFICATION Spec
CONSTANTS
 MaxLinks = 2
 Seens = "few"
 Paths = "few"
 OptSets = "few"
 Uplinks = {1, 2}
 Hists = FALSE
INVARIANTS OnlyDue AllDue OnceEach OwnCopy SeenGrows PathGrows NoLoop NeverUnauthorised NoDupe NotPoisoned TossedIsRecorded Accounted
CHECK_DEADLOCK FALSE
