SPECIFICATION MCSpec
CONSTANTS
  Users = {"u1", "u2"}
  Names = {"s1"}
  Prods = {"p1"}
  InitBal <- mcInit
  StakeH = 1
  GenTok = 0
  RegH = 0
  RegAmt = 2
  IssueFee = 1
  MinStake = 1
  Day = 10
  Limit = 1
  MaxNext = 5
  MaxSnaps = 2
  Part = "Q"
INVARIANT BuiltinInv
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
