CONSTANTS
  W = 4
  Ctr = 2
  Mirrors = {1, 2, 4}
  Kinds <- QKinds
  Caps <- QCaps
  Starts <- QStarts
  Want = 3
SPECIFICATION Spec
INVARIANTS NoOverlap RegisterOK Inside DoorsInside FrontOK SymOK Reachable LinksOK CountOK Closed GoneStay
PROPERTY Ends
CHECK_DEADLOCK FALSE
