CONSTANT Serial <- TableSerial
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
