CONSTANTS
  Size = 6
  MaxSteps = 6
  Depth = 7
  Rec = TRUE
  Fns <- GenFns
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
