SPECIFICATION Spec
CONSTANTS
  Keep = 3
  MaxH = 6
  Steps = {0, 1, 2}
INVARIANT RoundInv
CHECK_DEADLOCK FALSE
