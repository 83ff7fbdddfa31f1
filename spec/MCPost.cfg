CONSTANTS Variant = ""
 Length = 2
 Wide = FALSE
 Serial <- NoSerial
SPECIFICATION Spec
INVARIANTS OneEach Kinds RightGroup NoBarred ToSender Addressee Reasons Agrees
CHECK_DEADLOCK FALSE
