CONSTANTS
  W = 32
  Ctr = 16
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
