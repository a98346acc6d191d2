SPECIFICATION Spec
CONSTANTS
  MaxTgt = 2
  MaxTgt2 = 1
  MaxPath = 2
  Wrong = TRUE
INVARIANTS Compositional DotEnd Inside NoFollow
CHECK_DEADLOCK FALSE
