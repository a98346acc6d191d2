SPECIFICATION Spec
CONSTANTS
  Fan = 2
  Depth = 2
  Sizes = {1, 2, 3}
  Wrong = FALSE
INVARIANTS SizeRight FlatRight Exact
PROPERTY Complete
CHECK_DEADLOCK FALSE
