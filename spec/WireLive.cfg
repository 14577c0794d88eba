SPECIFICATION FairSpec
CONSTANTS
  Patience = 5
  Cap = 3
  NConns = 2
  MaxFrames = 3
  Sizes = {1, 3}
  Bound = 0
PROPERTY NoStarving
CHECK_DEADLOCK FALSE
