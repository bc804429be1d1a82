SPECIFICATION FindSpec
CONSTANTS
  Code = {}
  Datas = {}
  Amts = {}
  Depth = 3000
  Size0 = 25
  Calls = 4
  WEnd = 30
  WLoop = 60
  WSto = 60
  WBig = 5
INVARIANT Emit
INVARIANT TypeOK
INVARIANT OffChainPure
INVARIANT NoFreeQuota
CHECK_DEADLOCK FALSE
