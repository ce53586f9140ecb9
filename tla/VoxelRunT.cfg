CONSTANTS
  Size = 4
  Depth = 0
  Rec = FALSE
  Vals = {1, 2}
  Pts <- MC6Pts
SPECIFICATION Spec
INVARIANTS ExtentOK WorldOK LookupOK NothingElse CompactOK NodesOK
