CONSTANTS
  M = 1
  N = 2
  MaxRooms = 2
SPECIFICATION Spec
INVARIANTS Fair OwnFlag Lit
CHECK_DEADLOCK FALSE
