SPECIFICATION GenSpec
CONSTANTS
  A = {1, 2, 3, 4}
  Kinds = {0}
  MT = 3
  MA = 2
  Retry = 1
  Tries = 10
  TO = 9
  ClosedT = 10
  MaxNow = 100000
  PkMax = 3
  InMax = 3
  HsMax = 50
  Forge = TRUE
  Ops = {"Q", "N", "P"}
  Depth = 120
  Bug = "none"
INVARIANTS Export NoBad Limits Agreed Bounded Ended
PROPERTIES NotReplaced
CHECK_DEADLOCK FALSE
