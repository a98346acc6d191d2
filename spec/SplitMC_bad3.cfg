SPECIFICATION Spec
CONSTANTS
  MaxByte = 2
  MaxLen = 4
  BufSz = 4
  MaxChunk = 3
  Bad = "max"
INVARIANTS SoFar Right Chunking Local Kept NoStuck
CHECK_DEADLOCK FALSE
