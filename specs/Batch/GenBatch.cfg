SPECIFICATION GenSpec
CONSTANTS Owners = {"a", "b", "c", "d", "e", "f", "g"}
S = "s"
MaxLevel = 50
  Depth = 60
  WSnap = 30
  WRun = 12
INVARIANT Emit LevelsKeepOrder
CHECK_DEADLOCK FALSE
