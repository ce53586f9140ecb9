CONSTANTS
  Cell = 8
  Depth = 0
  Rec = FALSE
  MaxDraws = 2
  Cmds <- MCCmds
  PosSet <- GenPos
SPECIFICATION Spec
INVARIANTS OnePerPoint StayHome
CHECK_DEADLOCK FALSE
