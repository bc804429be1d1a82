SPECIFICATION MCSpec
CONSTANTS Disk0 = 2
MaxB = 6
INVARIANT Inv
PROPERTY Kept
