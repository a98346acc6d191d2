SPECIFICATION Spec
CONSTANTS
  TopDown = FALSE
  EarlyRef = FALSE
  Shallow = FALSE
INVARIANTS Whole Closed HeadsAreCommits
PROPERTY Kept
CHECK_DEADLOCK FALSE
