SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  MaxArgs = 2
  Wrong = TRUE
INVARIANTS Kept LastWins IsTree NoExcluded
CHECK_DEADLOCK FALSE
