SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4, 5}
  Brokers = {1, 2, 3, 4, 5}
  Topics = {0, 1, 2, 3}
  BrokerKey = 100
  MaxAge = 5
  HookSkip = 201
  HookErr = 202
INVARIANT Inv
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
