SPECIFICATION Spec
CONSTANTS
  Top = 4
  Tags = {1, 2}
INVARIANT Apart
PROPERTY Sticky
CHECK_DEADLOCK FALSE
