SPECIFICATION Spec
CONSTANTS
  NoCompare = FALSE
  Reread = FALSE
  N = 3
INVARIANTS Serialized InOrder Progress
CHECK_DEADLOCK FALSE
