SPECIFICATION mcSpec
CONSTANTS
  Limit = 2
  Cnt = 0
  Per = 100
  N = 5
  Prods = {1}
INVARIANTS LedgerOk RestOk
PROPERTY Final
CHECK_DEADLOCK FALSE
