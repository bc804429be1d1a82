SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2}
  Passes = {1, 2}
  Max0 = 3
INVARIANT Known
INVARIANT Told1
INVARIANT FoundIfOpen
PROPERTY ByPass
PROPERTY Heard
CHECK_DEADLOCK FALSE
