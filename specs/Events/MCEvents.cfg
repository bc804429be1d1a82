CONSTANTS
  MaxOps = 5
  Accts = {1, 2}
  Split = FALSE
SPECIFICATION Spec
INVARIANTS
  InOrder
  UpToDate
CHECK_DEADLOCK FALSE
