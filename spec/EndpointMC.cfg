SPECIFICATION Spec
CONSTANTS
  A = {1}
  Kinds = {0, 1, 2}
  MT = 1
  MA = 1
  Retry = 1
  Tries = 1
  TO = 2
  ClosedT = 2
  MaxNow = 1000
  PkMax = 1
  InMax = 1
  HsMax = 2
  Forge = TRUE
  Ops = {"Q", "N", "P"}
  Bug = "none"
INVARIANTS NoBad Limits Agreed Bounded Ended
PROPERTIES NotReplaced
VIEW View
CHECK_DEADLOCK FALSE
