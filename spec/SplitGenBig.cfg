SPECIFICATION Spec
CONSTANTS
  Big = TRUE
CHECK_DEADLOCK FALSE
