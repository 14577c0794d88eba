SPECIFICATION Spec
CONSTANTS
  MaxAge = 5
  Patience = 5
  MaxConns = 2
  Ages <- AllAges
  MaxPermits = 2
CONSTRAINT Bound
INVARIANTS Right Answer OneEach Count
CHECK_DEADLOCK FALSE
