SPECIFICATION Spec
CONSTANTS
  Brokers = {1}
  Keys = {1, 2, 3}
  Loads = {0}
  Expiries = {10}
  Steps = {9}
  MaxPermits = 0
  MaxClock = 0
  What = {"wl"}
VIEW View
INVARIANTS Single Bound_ LiveOnly Someone NotSelf Open
CHECK_DEADLOCK FALSE
