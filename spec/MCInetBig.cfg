CONSTANTS Variant = ""
 Deep = TRUE
SPECIFICATION Spec
INVARIANTS RoundTrip OneToOne Foreign NoCase ListBack
CHECK_DEADLOCK FALSE
