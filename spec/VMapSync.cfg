SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {1, 2}
  MaxVer = 3
  MaxLen = 2
CONSTRAINT Bound
INVARIANT Caught
PROPERTY Once
CHECK_DEADLOCK FALSE
