SPECIFICATION GenSpec
CONSTANTS
  Seeds = {1, 2, 3}
  Passes = {1, 2, 3, 4}
  Max0 = 7
  Depth = 60
  WNew = 10
INVARIANT Emit
INVARIANT Known
INVARIANT Told1
CHECK_DEADLOCK FALSE
