SPECIFICATION Spec
CONSTANTS
  Brokers = {1, 2}
  Keys = {1, 2}
  Loads = {0, 1}
  Expiries = {10}
  Steps = {9}
  MaxPermits = 2
  MaxClock = 18
  What = {"hb", "issue"}
VIEW ViewMC
INVARIANTS Single Bound_ LiveOnly Someone NotSelf Open
CHECK_DEADLOCK FALSE
