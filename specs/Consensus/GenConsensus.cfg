SPECIFICATION GenSpec
CONSTANTS SG <- S1
CG <- C1
Depth = 100
N = 3
Per = 1
Rep = 1
Iv = 400
Rc = 1
Rr = 5
CN = 3
CPer = 1
CIv = 50
NNames = 6
WRoll = 40
WJump = 25
INVARIANT Emit
CHECK_DEADLOCK FALSE
