SPECIFICATION Spec
CONSTANTS
  RetryWithin = 4000
  GiveUpMin = 8000
  GiveUpMax = 14000
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
