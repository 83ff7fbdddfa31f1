SPECIFICATION Spec
CONSTANTS
 MaxRules = 1
 Mode = "net"
INVARIANTS KeepsAddresses OneRule DroppedOnlyIf OneCopy FlavourByAttr
CHECK_DEADLOCK FALSE
