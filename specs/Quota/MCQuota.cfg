SPECIFICATION MCSpec
CONSTANTS
  Users = {"u1", "u3"}
  QS <- mcQS
  W = 3
  Retain = 2
  Base = 1
  PerByte = 1
  Limit = 3
  MaxNext = 3
  MaxTip = 4
INVARIANT QuotaInv
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
