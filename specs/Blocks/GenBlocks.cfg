SPECIFICATION GenSpec
CONSTANTS
  Depth = 60
  WBack = 35
  WCrash = 12
  WFlush = 120
  Files = {2000, 2500, 5000}
INVARIANT Emit
INVARIANT DiskIsGoal
INVARIANT NoGap
INVARIANT PrevIsEnd
CHECK_DEADLOCK FALSE
