CONSTANTS
  Size = 8
  Depth = 14
  Rec = TRUE
  Vals = {1, 2, 3}
  Pts <- G8Pts
SPECIFICATION Spec
INVARIANTS Emit
