SPECIFICATION Spec
CONSTANTS
  Paths = {"x", "y"}
  Contents = {1, 2}
  MaxTick = 4
  MaxWrites = 3
  ClampTimes = TRUE
  CompareCtime = TRUE
  CheckRepo = TRUE
  InvalidateDirs = FALSE
INVARIANTS SnapshotExact SnapshotComplete
CHECK_DEADLOCK FALSE
