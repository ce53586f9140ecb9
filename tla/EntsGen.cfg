SPECIFICATION Spec
CONSTANTS Length = 24
CHECK_DEADLOCK FALSE
