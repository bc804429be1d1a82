SPECIFICATION GenSpec
CONSTANTS
  Users = {"u1", "u2", "u3", "u4"}
  QS <- gQS
  W = 75
  Retain = 1200
  Base = 21000
  PerByte = 28
  Limit = 1000000
  Depth = 40
  WDelSnap = 40
  WDelAcct = 40
  WRestart = 20
  WDeep = 10
  MaxTip = 2000
INVARIANT Emit QuotaInv
CHECK_DEADLOCK FALSE
