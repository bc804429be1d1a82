SPECIFICATION GenSpec
CONSTANTS
  Users = {"u1", "u2", "u3"}
  Names = {"s1", "s2", "s3"}
  Prods = {"p1", "p2", "p3", "p4", "p5"}
  InitBal <- gInit
  StakeH = 600
  GenTok = 500000
  RegH = 3
  RegAmt = 1000000
  IssueFee = 1000
  MinStake = 134
  Day = 86400
  Limit = 3600
  Depth = 40
  WDelSnap = 20
  WRestart = 10
  WQ = 100
  WA = 100
  WG = 100
  WJump = 20
  WWd = 40
  WRev = 50
INVARIANT Emit GenInv
CHECK_DEADLOCK FALSE
