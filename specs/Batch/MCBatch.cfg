SPECIFICATION MCSpec
CONSTANTS Owners = {"a", "b"}
S = "s"
MaxLevel = 50
MaxI = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
