CONSTANTS
  M = 2
  N = 2
  MaxRooms = 2
SPECIFICATION Spec
INVARIANTS Fair OwnFlag Lit
CHECK_DEADLOCK FALSE
