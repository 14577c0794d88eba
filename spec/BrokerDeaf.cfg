SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Brokers = {1, 3, 4}
  Topics = {0}
  BrokerKey = 100
  MaxAge = 5
  HookSkip = 201
  HookErr = 202
  Self = 3
  Peers = {1, 4}
  What = {"login", "link", "direct", "bcast", "deaf", "pdeaf", "drop", "tsync", "usync", "round"}
  Depth = 5
  Vers = {1}
VIEW View
INVARIANTS Core Subs
PROPERTIES Right
CHECK_DEADLOCK FALSE
