SPECIFICATION Spec
CONSTANTS
 MaxBase = 5
CHECK_DEADLOCK FALSE
