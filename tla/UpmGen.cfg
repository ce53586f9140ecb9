CONSTANTS
  W = 32
  Ctr = 16
  Depth = 9
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
