CONSTANTS
  Size = 3
  Heights = {4, 5, 6}
  Textures = {"11,11,11,11,11,11"}
SPECIFICATION Spec
INVARIANTS Legal NoGap Walled Standing
CHECK_DEADLOCK FALSE
