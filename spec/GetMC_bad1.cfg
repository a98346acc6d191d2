SPECIFICATION Spec
CONSTANTS
  TopDown = TRUE
  EarlyRef = FALSE
  Shallow = FALSE
INVARIANTS Whole HeadsAreCommits
PROPERTY Kept
CHECK_DEADLOCK FALSE
