CONSTANTS Variant = "node"
 Deep = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip OneToOne Foreign NoCase ListBack
CHECK_DEADLOCK FALSE
