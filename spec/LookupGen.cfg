SPECIFICATION Spec
CONSTANTS
  MaxOps = 22
  NPacks = 8
CHECK_DEADLOCK FALSE
