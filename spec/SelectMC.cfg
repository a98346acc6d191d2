SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Wrong = FALSE
INVARIANTS NoneBelow Repeat Less Moved Plain
CHECK_DEADLOCK FALSE
