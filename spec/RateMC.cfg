SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Caps = {1472, 300000}
  Rtts = {0, 100, 4000}
  Recvs = {0, 40000, 2147483647}
  Losses <- SmallLosses
  Gaps = {200, 9000}
INVARIANTS BoundsHold Agree
CHECK_DEADLOCK FALSE
