SPECIFICATION Spec
CONSTANTS
  MaxLen = 30
  Faults = FALSE
CHECK_DEADLOCK FALSE
