SPECIFICATION GenSpec
CONSTANTS
  Disk0 = 3
  Depth = 40
  WRoll = 40
  WSwitch = 70
INVARIANT Emit
CHECK_DEADLOCK FALSE
