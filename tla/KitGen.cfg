CONSTANTS
  Cell = 8
  Depth = 8
  Rec = TRUE
  MaxDraws = 8
  Cmds <- GenCmds
  PosSet <- GenPos
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
