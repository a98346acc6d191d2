SPECIFICATION Spec
CONSTANTS
  MaxOps = 9
CHECK_DEADLOCK FALSE
