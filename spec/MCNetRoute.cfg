SPECIFICATION Spec
CONSTANTS
 MaxRules = 2
 Mode = "route"
INVARIANTS OnceRouted DirectStays NoRuleNoChange FlavourGuard NextHop
CHECK_DEADLOCK FALSE
