CONSTANTS
  Size = 4
  MaxSteps = 3
  Depth = 0
  Rec = FALSE
  Fns <- MCFns
SPECIFICATION Spec
INVARIANTS OnePer Monotone Boxed Nested InWorld
CHECK_DEADLOCK FALSE
