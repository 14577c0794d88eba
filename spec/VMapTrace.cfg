SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
