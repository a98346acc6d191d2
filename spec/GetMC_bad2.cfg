SPECIFICATION Spec
CONSTANTS
  TopDown = FALSE
  EarlyRef = TRUE
  Shallow = FALSE
INVARIANTS Whole Closed HeadsAreCommits
PROPERTY Kept
CHECK_DEADLOCK FALSE
