SPECIFICATION MCSpec
CONSTANTS
  Users = {"u1"}
  Deployers = {"d1"}
  Contracts = {"c1"}
  CreatorOf <- mcCreatorOf
  ConfOf <- mcConfOf
  Tokens = {"VITE"}
  Keys = {1, 9}
  InitBal <- mcInitBal
  CreateFee <- mcFee
  MaxNext = 5
  MaxSnaps = 2
INVARIANT LedgerInv
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
