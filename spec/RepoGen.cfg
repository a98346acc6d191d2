SPECIFICATION Spec
CONSTANTS
  Branches = {"a", "b"}
  Tags = {"t", "u"}
  NContents = 8
  MaxLen = 10
CHECK_DEADLOCK FALSE
