CONSTANTS
  Size = 4
  Depth = 0
  Rec = FALSE
  Vals = {1, 2}
  Pts <- MCPts
SPECIFICATION Spec
INVARIANTS ExtentOK WorldOK LookupOK NothingElse CompactOK NodesOK
