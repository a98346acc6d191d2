SPECIFICATION Spec
CONSTANTS
  Packs = {"p1", "p2", "p3"}
  Objs = {1, 2, 3, 4, 5}
  Content <- MCContent
  BloomRule = "count"
  MidxRule = "complete"
INVARIANTS Exact NeverForgets
CHECK_DEADLOCK FALSE
