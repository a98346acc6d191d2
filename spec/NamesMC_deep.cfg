SPECIFICATION Spec
CONSTANTS
  MaxSaves = 9
  Dates = {"x", "y", "z"}
  Days = 150000
  Wrong = FALSE
INVARIANTS Distinct Sorted Alone Stable Calendar Zone
CHECK_DEADLOCK FALSE
