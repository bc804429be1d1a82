SPECIFICATION Spec
CONSTANTS
  MaxId = 5
CONSTRAINT Bound
INVARIANT DiskIsGoal
INVARIANT NoGap
INVARIANT PrevIsEnd
INVARIANT Distinct
PROPERTY Durable
CHECK_DEADLOCK FALSE
