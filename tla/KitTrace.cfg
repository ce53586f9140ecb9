CONSTANT Cell = 8
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
