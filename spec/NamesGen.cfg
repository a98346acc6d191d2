SPECIFICATION Spec
CONSTANT MaxOps = 14
CHECK_DEADLOCK FALSE
