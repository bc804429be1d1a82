SPECIFICATION bSpec
CONSTANTS
  Users <- mcUsers
  Op <- mcOp
  InitBal = 6
  DecDiv = 1
  Card = 10
  BaseRate = 2
  VipCut = 1
  Vip <- mcVip
  Invited <- mcInvited
  MinAmt = 1
  MarketMax = 4
  MaxTx = 2
  MaxCalls = 0
  MaxOrders = 3
  Types = {0, 1, 2, 3, 4}
  Prices = {3, 4, 6}
  Qtys = {1, 2, 4}
  Withdraws = FALSE
INVARIANTS BookOk FundsOk bMatch
CHECK_DEADLOCK FALSE
