SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Wrong = TRUE
INVARIANTS NoneBelow Repeat Less Moved Plain
CHECK_DEADLOCK FALSE
