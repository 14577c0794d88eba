SPECIFICATION Spec
CONSTANTS
  MaxAge = 5
  Patience = 5
  MaxConns = 2
  Ages = {5, 6}
  MaxPermits = 2
CONSTRAINT Bound
INVARIANTS Right Answer OneEach Count
CHECK_DEADLOCK FALSE
