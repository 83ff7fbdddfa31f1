CONSTANTS Variant = ""
 Length = 2
 Wide = TRUE
 Serial <- NoSerial
SPECIFICATION Spec
INVARIANTS OneEach Kinds RightGroup NoBarred ToSender Addressee Reasons Agrees
CHECK_DEADLOCK FALSE
