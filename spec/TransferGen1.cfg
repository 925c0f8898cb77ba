SPECIFICATION GenSpec
CONSTANTS
  W = 4
  M = 16
  FW = 8
  Chan = {0, 1}
  Modes = {0, 1, 2, 3}
  PkMax = 11
  FragMax = 2
  Alloc = 6
  DataMax = 40
  AckMax = 16
  SyncMax = 8
  Base = 13
  Depth = 80
  Bug = "none"
INVARIANTS Export InOrder NotSkipped Released NoError InLimits AckGenuine SentOnce GivesUpOnly Counted RecoversNow InTime
CHECK_DEADLOCK FALSE
