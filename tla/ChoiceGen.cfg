SPECIFICATION Spec
CONSTANTS Length = 20
CHECK_DEADLOCK FALSE
