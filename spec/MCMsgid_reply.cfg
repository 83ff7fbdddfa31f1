CONSTANTS Variant = "reply"
 Deep = FALSE
 Serial <- NamedSerial
SPECIFICATION Spec
INVARIANTS Back Parts2 Carried
CHECK_DEADLOCK FALSE
