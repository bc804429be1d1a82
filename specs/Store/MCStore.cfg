SPECIFICATION Spec
CONSTANTS
  Accts = {"x", "y"}
  KeysOf <- KO
  Global = {3}
  MaxTick = 6
CONSTRAINT Bound
INVARIANT ViewIsAll
INVARIANT TypeOK
PROPERTY Quiet
CHECK_DEADLOCK FALSE
