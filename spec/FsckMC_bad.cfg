SPECIFICATION Spec
CONSTANTS
  N = 3
  Jobs = 2
  Merge = "or"
INVARIANTS Right OnlyRepair Sound
CHECK_DEADLOCK FALSE
