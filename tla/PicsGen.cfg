CONSTANTS
  Keys <- GenKeys
  Managers = {1, 2}
  Skies = {"desert", "minecraft", "own"}
  MaxSteps = 24
  Depth = 24
  Rec = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
