SPECIFICATION Spec
CONSTANTS
  MaxAge = 5
  Patience = 5
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
