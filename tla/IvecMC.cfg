CONSTANTS
  Coords <- MCCoords
  Nums <- MCNums
  MaxSteps = 1
  Depth = 0
  Rec = FALSE
SPECIFICATION Spec
INVARIANTS CrossLaw AddLaw ShlLaw MaskLaw OctantLaw
CHECK_DEADLOCK FALSE
