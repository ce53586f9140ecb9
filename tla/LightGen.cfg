SPECIFICATION Spec
CONSTANTS Length = 30
CHECK_DEADLOCK FALSE
