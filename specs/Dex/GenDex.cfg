SPECIFICATION GenSpec
CONSTANTS
  Users = {"u1", "u2", "u3"}
  Op = "op"
  InitBal = 800000
  DecDiv = 1
  Card = 100000
  BaseRate = 200
  VipCut = 100
  Vip = {"u2"}
  Invited = {"u3"}
  MinAmt = 1000
  MarketMax = 40000
  MaxTx = 100
  Depth = 100
  WAdmin = 30
  WFund = 50
  WCancel = 40
  WAgent = 20
INVARIANTS Emit BookOk FundsOk GenMatch
CHECK_DEADLOCK FALSE
