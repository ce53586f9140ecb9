CONSTANTS
  S = 3
  W = 2
  H = 2
  Blocks = 1
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS Through Mutual Exact
CHECK_DEADLOCK FALSE
