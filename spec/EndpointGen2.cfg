SPECIFICATION GenSpec
CONSTANTS
  A = {1, 2}
  Kinds = {0, 1, 2}
  MT = 2
  MA = 1
  Retry = 1
  Tries = 10
  TO = 4
  ClosedT = 10
  MaxNow = 100000
  PkMax = 3
  InMax = 3
  HsMax = 50
  Forge = TRUE
  Ops = {"Q", "N", "P"}
  Depth = 80
  Bug = "none"
INVARIANTS Export NoBad Limits Agreed Bounded Ended
PROPERTIES NotReplaced
CHECK_DEADLOCK FALSE
