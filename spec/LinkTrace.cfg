SPECIFICATION Spec
CONSTANTS
  Patience = 5
  SizeField = 4
INVARIANT Inv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
