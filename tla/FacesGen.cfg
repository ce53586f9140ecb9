SPECIFICATION Spec
CONSTANTS Length = 40
CHECK_DEADLOCK FALSE
