SPECIFICATION Spec
CONSTANTS
  Fan = 3
  Depth = 2
  Sizes = {1, 2}
  Wrong = FALSE
INVARIANTS SizeRight FlatRight Exact
CHECK_DEADLOCK FALSE
