SPECIFICATION GenSpec
CONSTANTS
  A = {1}
  Kinds = {0}
  MT = 1
  MA = 1
  Retry = 1
  Tries = 10
  TO = 3
  ClosedT = 10
  MaxNow = 100000
  PkMax = 3
  InMax = 3
  HsMax = 50
  Forge = TRUE
  Ops = {"Q", "N", "P"}
  Depth = 60
  Bug = "none"
INVARIANTS Export NoBad Limits Agreed Bounded Ended
PROPERTIES NotReplaced
CHECK_DEADLOCK FALSE
