SPECIFICATION Spec
CONSTANTS
 MaxMail = 3
 RouteTabs = {1, 2, 3, 4}
 PackTabs = {1, 2, 3, 4}
 Kinds = {"n", "c"}
INVARIANTS OncePlace ArchivesListed ListedOnce NoForgottenMail OnlyForeignFlags
PROPERTIES HandsOff Dequeued
CHECK_DEADLOCK FALSE
