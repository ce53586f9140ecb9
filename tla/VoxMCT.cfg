CONSTANTS
  PalN = 2
  MaxVox = 3
  Vals = {0, 255}
  Texs = {0, 1, 254}
SPECIFICATION Spec
INVARIANTS RoundTrip Formed NotFormed CutRejected MarkerRejected FlipSeen
CHECK_DEADLOCK FALSE
