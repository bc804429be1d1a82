SPECIFICATION gSpec
CONSTANTS
  Limit = 3
  Cnt = 0
  Per = 1000
  Depth = 200
  N = 14
  NAcc = 3
  NProd = 2
  B0 = 5
  WChunk = 8
INVARIANTS Emit GenOk
CHECK_DEADLOCK FALSE
