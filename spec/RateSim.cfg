SPECIFICATION SimSpec
CONSTANTS
  Depth = 40
  Caps = {1472, 20000, 1000000, 2000000000}
  Rtts = {0, 1, 7, 40, 100, 600, 4000, 200000, 10000000}
  Recvs = {0, 1, 100, 3000, 40000, 1000000, 2147483647}
  Losses <- WideLosses
  Gaps = {0, 1, 20, 100, 300, 2000, 9000, 100000, 3000000}
INVARIANTS BoundsHold Agree Export
CHECK_DEADLOCK FALSE
