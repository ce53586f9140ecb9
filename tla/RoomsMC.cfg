CONSTANTS
  Rec = FALSE
  Depth = 4
  PosSet <- Positions
  Shapes <- ShapeSet
SPECIFICATION Spec
INVARIANTS DoorsStay DoorsTurn
CHECK_DEADLOCK FALSE
