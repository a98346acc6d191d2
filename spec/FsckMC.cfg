SPECIFICATION Spec
CONSTANTS
  N = 3
  Jobs = 2
  Merge = "good"
INVARIANTS Right OnlyRepair Sound
CHECK_DEADLOCK FALSE
