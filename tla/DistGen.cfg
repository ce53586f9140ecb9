SPECIFICATION Spec
CONSTANTS Length = 36
CHECK_DEADLOCK FALSE
