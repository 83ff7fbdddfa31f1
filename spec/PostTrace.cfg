CONSTANT Serial <- NoSerial
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
