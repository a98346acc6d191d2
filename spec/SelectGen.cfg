SPECIFICATION Spec
CONSTANTS
 Len0 = 14
CHECK_DEADLOCK FALSE
