SPECIFICATION Spec
CONSTANTS
  TopDown = FALSE
  EarlyRef = FALSE
  Shallow = TRUE
INVARIANTS Whole Closed HeadsAreCommits
PROPERTY Kept
CHECK_DEADLOCK FALSE
