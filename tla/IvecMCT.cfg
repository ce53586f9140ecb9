CONSTANTS
  Coords <- MCTCoords
  Nums <- MCNums
  MaxSteps = 2
  Depth = 0
  Rec = FALSE
SPECIFICATION Spec
INVARIANTS CrossLaw AddLaw ShlLaw MaskLaw OctantLaw
CHECK_DEADLOCK FALSE
