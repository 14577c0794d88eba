SPECIFICATION Spec
CONSTANTS
  Keys = {1}
  Brokers = {1, 2, 3}
  Topics = {0}
  BrokerKey = 100
  MaxAge = 5
  HookSkip = 201
  HookErr = 202
  N = 3
  NEnv = 3
  NCut = 0
  Calm = TRUE
VIEW View
INVARIANTS Core
CHECK_DEADLOCK FALSE
