SPECIFICATION MCSpec
CONSTANTS
  Code <- MCCode
  Datas <- MCDatas
  Limit <- MCLimit
  Amts = {0, 1}
  Len0 = 3
  MaxEnds = 2
INVARIANT TypeOK
INVARIANT OffChainPure
INVARIANT NoFreeQuota
INVARIANT NoZeroStored
PROPERTY AllOrNothing
PROPERTY Costs
CHECK_DEADLOCK FALSE
