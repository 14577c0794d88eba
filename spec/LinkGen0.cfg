SPECIFICATION Spec
CONSTANTS
  Patience = 5
  SizeField = 4
  PipeRoom = 5
  Bound = 0
  MaxSent = 2
  MaxSoft = 1
  Sizes = {0, 3}
  MaxClock = 6
  Reads = {3, 100}
VIEW Hide
INVARIANT Inv
CHECK_DEADLOCK FALSE
