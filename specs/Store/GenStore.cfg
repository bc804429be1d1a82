SPECIFICATION GenSpec
CONSTANTS
  Accts = {"x", "y"}
  KeysOf <- KO
  Global = {7, 8}
  Depth = 80
  WRoll = 40
  WCrash = 5
  WFlush = 60
INVARIANT Emit
INVARIANT ViewIsAll
CHECK_DEADLOCK FALSE
