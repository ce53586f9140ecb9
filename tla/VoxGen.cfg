CONSTANTS
  PalN = 256
  Steps = 12
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
