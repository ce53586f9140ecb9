CONSTANTS
  Rec = TRUE
  Depth = 3
  PosSet <- GenPositions
  Shapes <- OneShape
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
