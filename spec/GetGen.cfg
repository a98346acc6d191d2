SPECIFICATION Spec
CONSTANTS
  Len0 = 16
CHECK_DEADLOCK FALSE
