SPECIFICATION Spec
CONSTANTS
  MaxSaves = 11
  Dates = {"x", "y"}
  Days = 3000
  Wrong = TRUE
INVARIANTS Distinct Sorted Alone Stable Calendar Zone
CHECK_DEADLOCK FALSE
