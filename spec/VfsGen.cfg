SPECIFICATION Spec
CONSTANTS
  NTrees = 2
  NLookups = 150
CHECK_DEADLOCK FALSE
