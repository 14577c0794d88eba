SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Brokers = {1, 3, 4}
  Topics = {0, 1}
  BrokerKey = 100
  MaxAge = 5
  HookSkip = 201
  HookErr = 202
  Self = 3
  Peers = {4}
  What = {"login", "link", "subs", "sub", "bcast", "pbcast", "tsync", "drop", "pdrop", "round"}
  Depth = 5
  Vers = {1, 2}
VIEW View
INVARIANTS Core Subs

CHECK_DEADLOCK FALSE
