SPECIFICATION GenSpec
CONSTANTS
  Users = {"u1", "u2", "u3"}
  Deployers = {"d1", "d2", "d3"}
  Contracts = {"c1", "c2", "c3"}
  CreatorOf <- gCreatorOf
  ConfOf <- gConfOf
  Tokens = {"VITE", "TOKA"}
  Keys = {1, 2, 9}
  InitBal <- gInitBal
  CreateFee <- gFee
  Depth = 40
  WRestart = 2
  WCrash = 0
  WCrashDel = 0
  WDelSnap = 4
  WDelAcct = 6
  WEarly = TRUE
  WForge = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
