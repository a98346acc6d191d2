SPECIFICATION Spec
CONSTANTS
  MaxNodes = 40
  NNames = 30
  NRestores = 4
CHECK_DEADLOCK FALSE
