SPECIFICATION Spec
CONSTANTS
  Patience = 50
  Cap = 3
  NConns = 2
  MaxFrames = 3
  Sizes = {2, 3}
  Bound = 1
  MaxClock = 24
VIEW Hide
INVARIANT Inv
CHECK_DEADLOCK FALSE
