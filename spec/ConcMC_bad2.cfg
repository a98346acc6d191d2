SPECIFICATION Spec
CONSTANTS
  NoCompare = FALSE
  Reread = TRUE
  N = 2
INVARIANTS Serialized
CHECK_DEADLOCK FALSE
