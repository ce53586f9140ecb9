CONSTANTS
  Size = 2
  Depth = 14
  Rec = TRUE
  Vals = {1, 2, 3}
  Pts <- G2Pts
SPECIFICATION Spec
INVARIANTS Emit
