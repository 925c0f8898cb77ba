SPECIFICATION Spec
CONSTANTS
  W = 2
  M = 8
  FW = 3
  Chan = {c0, c1}
  Modes = {1, 2, 3}
  PkMax = 2
  FragMax = 1
  Alloc = 2
  DataMax = 4
  AckMax = 1
  SyncMax = 1
  Base = 6
  Bug = "none"
INVARIANTS InOrder NotSkipped Released NoError InLimits AckGenuine SentOnce GivesUpOnly InTime Counted Recovers
SYMMETRY ChanSym
VIEW View
CHECK_DEADLOCK FALSE
