SPECIFICATION Spec
CONSTANTS
  NFiles = 4
  NSessions = 6
  MaxCalls = 12
CHECK_DEADLOCK FALSE
