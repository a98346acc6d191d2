SPECIFICATION Spec
CONSTANTS
  Branches = {"a"}
  Tags = {"t"}
  Parts = {1, 2}
  MaxCommits = 2
  MaxPacks = 2
  BloomFalse = TRUE
  AllowCrash = TRUE
  EarlyDelete = FALSE
INVARIANTS NoDangling GcCollected
PROPERTIES OnlyAsAsked RmKeeps
CHECK_DEADLOCK FALSE
