CONSTANTS
  Keys = {"a", "b"}
  Managers = {1, 2}
  Skies = {"s", "t"}
  MaxSteps = 6
  Depth = 0
  Rec = FALSE
SPECIFICATION Spec
INVARIANTS Served NothingElse
PROPERTIES Kept Fresh
CHECK_DEADLOCK FALSE
