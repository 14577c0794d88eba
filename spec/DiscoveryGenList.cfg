SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2, 3}
  Keys = {1}
  Loads = {0, 2}
  Expiries = {10, 31}
  Steps = {9}
  MaxPermits = 0
  MaxClock = 27
  What = {"hb"}
VIEW View
INVARIANTS Single Bound_ LiveOnly Someone NotSelf Open
CHECK_DEADLOCK FALSE
