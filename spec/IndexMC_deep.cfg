SPECIFICATION Spec
CONSTANTS
  Paths = {"x", "y"}
  Contents = {1, 2}
  MaxTick = 5
  MaxWrites = 4
  ClampTimes = TRUE
  CompareCtime = TRUE
  CheckRepo = TRUE
  InvalidateDirs = TRUE
INVARIANTS SnapshotExact SnapshotComplete
CHECK_DEADLOCK FALSE
