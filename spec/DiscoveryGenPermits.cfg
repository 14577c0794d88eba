SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  Keys = {1, 2}
  Loads = {0}
  Expiries = {10, 31}
  Steps = {9, 30}
  MaxPermits = 2
  MaxClock = 39
  What = {"issue"}
VIEW View
INVARIANTS Single Bound_ LiveOnly Someone NotSelf Open
CHECK_DEADLOCK FALSE
