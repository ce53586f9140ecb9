CONSTANTS
  S = 3
  W = 2
  H = 2
  Blocks = 2
  MaxLen = 2
SPECIFICATION Spec
INVARIANTS Through Mutual Exact
CHECK_DEADLOCK FALSE
