SPECIFICATION Fair
CONSTANTS
  Keys = {1}
  Brokers = {1, 2, 3}
  Topics = {}
  BrokerKey = 100
  MaxAge = 5
  HookSkip = 201
  HookErr = 202
  N = 2
  NEnv = 3
  NCut = 1
  Calm = FALSE
PROPERTY Settles
CHECK_DEADLOCK FALSE
