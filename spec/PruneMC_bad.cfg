SPECIFICATION Spec
CONSTANTS
  MaxT = 8
  Points = {0, 3, 6}
  MaxSaves = 3
  Wrong = TRUE
INVARIANTS AllKept Unitkept NothingElse OnlyNewest Stable
CHECK_DEADLOCK FALSE
