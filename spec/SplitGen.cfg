SPECIFICATION Spec
CONSTANTS
  Big = FALSE
CHECK_DEADLOCK FALSE
