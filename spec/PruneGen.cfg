SPECIFICATION Spec
CONSTANTS
  MaxSaves = 9
  NReq = 3
CHECK_DEADLOCK FALSE
