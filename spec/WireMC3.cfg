SPECIFICATION Spec
CONSTANTS
  Patience = 5
  Cap = 3
  NConns = 3
  MaxFrames = 3
  Sizes = {1, 3}
  Bound = 1
INVARIANTS Pool Returned Ordered NoTwice
CHECK_DEADLOCK FALSE
