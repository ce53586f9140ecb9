CONSTANTS
  S = 2
  W = 1
  H = 1
  Blocks = 3
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS Through Mutual Exact
CHECK_DEADLOCK FALSE
