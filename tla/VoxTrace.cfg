INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  PalN = 256
