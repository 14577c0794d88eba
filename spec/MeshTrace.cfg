SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3, 4}
  Brokers = {1, 2, 3, 4}
  Topics = {0, 1, 2}
  BrokerKey = 100
  MaxAge = 5
  HookSkip = 201
  HookErr = 202
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
