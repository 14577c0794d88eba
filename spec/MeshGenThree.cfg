SPECIFICATION Spec
CONSTANTS
  Keys = {1}
  Brokers = {1, 2, 3}
  Topics = {}
  BrokerKey = 100
  MaxAge = 5
  HookSkip = 201
  HookErr = 202
  N = 3
  NEnv = 2
  NCut = 1
  Calm = FALSE
VIEW View
INVARIANTS Core
CHECK_DEADLOCK FALSE
