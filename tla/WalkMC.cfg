CONSTANTS
  S = 2
  W = 1
  H = 1
  Blocks = 4
  MaxLen = 2
SPECIFICATION Spec
INVARIANTS Through Mutual Exact
CHECK_DEADLOCK FALSE
