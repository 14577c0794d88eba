SPECIFICATION Spec
CONSTANTS
  Patience = 5
  Cap = 3
  NConns = 2
  MaxFrames = 3
  Sizes = {1, 2, 3, 4}
  Bound = 0
INVARIANTS Pool Returned Ordered NoTwice
CHECK_DEADLOCK FALSE
