CONSTANTS
  Coords <- GenCoords
  Nums <- GenNums
  MaxSteps = 10
  Depth = 10
  Rec = TRUE
SPECIFICATION GenSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
