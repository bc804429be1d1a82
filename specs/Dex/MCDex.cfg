SPECIFICATION mcSpec
CONSTANTS
  Users <- mcUsers
  Op <- mcOp
  InitBal = 6
  DecDiv = 1
  Card = 10
  BaseRate = 2
  VipCut = 1
  Vip <- mcVip
  Invited <- mcInvited
  MinAmt = 1
  MarketMax = 4
  MaxTx = 2
  MaxCalls = 6
  Types = {0}
  Prices = {4, 6}
  Qtys = {1, 3}
  Withdraws = FALSE
INVARIANTS BookOk FundsOk mcMatch
CHECK_DEADLOCK FALSE
