CONSTANTS
  Names <- MCNames
  Managers = {1, 2}
  Maps = {1, 2}
  MaxSteps = 4
  Depth = 0
  Rec = FALSE
SPECIFICATION Spec
INVARIANTS DenseAndUnique FileKnown
PROPERTIES Stable Independent
CHECK_DEADLOCK FALSE
