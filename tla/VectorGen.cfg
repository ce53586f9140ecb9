CONSTANTS
  U = 2
  Lim = 4000
  Depth = 12
  Rec = TRUE
  Args <- MCArgs
SPECIFICATION Spec
INVARIANTS Emit
