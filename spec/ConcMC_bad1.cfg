SPECIFICATION Spec
CONSTANTS
  NoCompare = TRUE
  Reread = FALSE
  N = 2
INVARIANTS Serialized
CHECK_DEADLOCK FALSE
