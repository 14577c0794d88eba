SPECIFICATION Spec
CONSTANTS Patience = 50
INVARIANT Inv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
