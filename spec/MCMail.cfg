SPECIFICATION Spec
CONSTANTS
 MaxMail = 2
 RouteTabs = {1, 2, 3, 4}
 PackTabs = {1, 2, 3, 4}
 Kinds = {"n"}
INVARIANTS OncePlace ArchivesListed ListedOnce NoForgottenMail OnlyForeignFlags
PROPERTIES HandsOff Dequeued
CHECK_DEADLOCK FALSE
