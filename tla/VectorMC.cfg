CONSTANTS
  U = 2
  Lim = 8
  Depth = 0
  Rec = FALSE
  Args <- MCArgs
SPECIFICATION Spec
INVARIANTS RotLaws AboutLaws ConvLaws MixLaws EqLaws OrdLaws
