SPECIFICATION Spec
CONSTANTS
  Fan = 2
  Depth = 2
  Sizes = {1, 2, 3}
  Wrong = TRUE
INVARIANTS SizeRight FlatRight Exact
CHECK_DEADLOCK FALSE
