SPECIFICATION Spec
CONSTANTS
  A = {1, 2}
  Kinds = {0}
  MT = 2
  MA = 1
  Retry = 1
  Tries = 0
  TO = 2
  ClosedT = 2
  MaxNow = 1000
  PkMax = 0
  InMax = 1
  HsMax = 1
  Forge = FALSE
  Ops = {"N", "P"}
  Bug = "none"
INVARIANTS NoBad Limits Agreed Bounded Ended
PROPERTIES NotReplaced
VIEW View
CHECK_DEADLOCK FALSE
