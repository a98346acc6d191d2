SPECIFICATION Spec
CONSTANTS
  NPacks = 3
  NSteps = 6
CHECK_DEADLOCK FALSE
