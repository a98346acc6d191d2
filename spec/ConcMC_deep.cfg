SPECIFICATION Spec
CONSTANTS
  NoCompare = FALSE
  Reread = FALSE
  N = 4
INVARIANTS Serialized InOrder Progress
CHECK_DEADLOCK FALSE
