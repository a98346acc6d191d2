SPECIFICATION Spec
CONSTANTS
  MaxT = 9
  Points = {0, 2, 5, 7}
  MaxSaves = 4
  Wrong = FALSE
INVARIANTS AllKept Unitkept NothingElse OnlyNewest Stable
CHECK_DEADLOCK FALSE
