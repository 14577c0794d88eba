SPECIFICATION Spec
CONSTANTS
  Patience = 50
  Cap = 3
  NConns = 2
  MaxFrames = 2
  Sizes = {1, 3, 4}
  Bound = 1
  MaxClock = 60
VIEW Hide
INVARIANT Inv
CHECK_DEADLOCK FALSE
