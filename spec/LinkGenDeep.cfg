SPECIFICATION Spec
CONSTANTS
  Patience = 5
  SizeField = 4
  PipeRoom = 5
  Bound = 1
  MaxSent = 3
  MaxSoft = 2
  Sizes = {0, 3}
  MaxClock = 8
  Reads = {1, 6}
VIEW Hide
INVARIANT Inv
CHECK_DEADLOCK FALSE
