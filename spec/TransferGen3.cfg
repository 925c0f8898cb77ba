SPECIFICATION GenSpec
CONSTANTS
  W = 8
  M = 32
  FW = 8
  Chan = {0, 1, 2}
  Modes = {1, 2, 3}
  PkMax = 12
  FragMax = 3
  Alloc = 4
  DataMax = 40
  AckMax = 16
  SyncMax = 8
  Base = 27
  Depth = 80
  Bug = "none"
INVARIANTS Export InOrder NotSkipped Released NoError InLimits AckGenuine SentOnce GivesUpOnly Counted RecoversNow InTime
CHECK_DEADLOCK FALSE
