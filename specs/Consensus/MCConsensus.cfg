SPECIFICATION MCSpec
CONSTANTS SG <- S1
CG <- C1
MaxLen = 5
MaxPer = 5
INVARIANT Inv
PROPERTY Stable
CHECK_DEADLOCK FALSE
