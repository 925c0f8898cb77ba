SPECIFICATION GenSpec
CONSTANTS
  W = 2
  M = 8
  FW = 4
  Chan = {0, 1}
  Modes = {0, 1, 2, 3}
  PkMax = 14
  FragMax = 1
  Alloc = 2
  DataMax = 40
  AckMax = 16
  SyncMax = 8
  Base = 5
  Depth = 80
  Bug = "none"
INVARIANTS Export InOrder NotSkipped Released NoError InLimits AckGenuine SentOnce GivesUpOnly Counted RecoversNow InTime
CHECK_DEADLOCK FALSE
