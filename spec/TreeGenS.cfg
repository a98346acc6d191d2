SPECIFICATION Spec
CONSTANTS
  MaxNodes = 40
  NNames = 30
  NRestores = 1
CHECK_DEADLOCK FALSE
