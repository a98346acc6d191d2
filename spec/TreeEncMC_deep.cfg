SPECIFICATION Spec
CONSTANTS
  Tokens = {"x", ".bup", "l", "m", "d"}
  Bup = ".bup"
  L = "l"
  M = "m"
  D = "d"
  MaxLen = 4
  Wrong = FALSE
INVARIANTS RoundTrip Distinct NotReserved
CHECK_DEADLOCK FALSE
