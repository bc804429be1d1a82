SPECIFICATION GenSpec
CONSTANTS
  Top = 12
  Tags = {1, 2}
  Depth = 60
INVARIANT Emit
INVARIANT Apart
CHECK_DEADLOCK FALSE
