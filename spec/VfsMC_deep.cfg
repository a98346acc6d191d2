SPECIFICATION Spec
CONSTANTS
  MaxTgt = 2
  MaxTgt2 = 2
  MaxPath = 2
  Wrong = FALSE
INVARIANTS Compositional DotEnd Inside NoFollow
CHECK_DEADLOCK FALSE
