CONSTANTS
  Names <- GenNames
  Managers = {1, 2}
  Maps = {1, 2}
  MaxSteps = 30
  Depth = 30
  Rec = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
