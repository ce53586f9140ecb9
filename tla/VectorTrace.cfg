CONSTANT U = 64
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
