SPECIFICATION Spec
CONSTANTS
  MaxT = 8
  Points = {0, 3, 6}
  MaxSaves = 3
  Wrong = FALSE
INVARIANTS AllKept Unitkept NothingElse OnlyNewest Stable
CHECK_DEADLOCK FALSE
