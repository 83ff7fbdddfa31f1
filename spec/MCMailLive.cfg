SPECIFICATION Fair
CONSTANTS
 MaxMail = 1
 RouteTabs = {1, 2, 3, 4}
 PackTabs = {1, 2, 3, 4}
 Kinds = {"n", "h"}
INVARIANTS OncePlace
PROPERTIES AllSent
CHECK_DEADLOCK FALSE
