SPECIFICATION Spec
CONSTANTS
  Keys = {1}
  N = 3
  Vals = {1, 2}
  MaxVer = 3
  Ids <- IdsOneTwo
VIEW View
CONSTRAINT Bound
INVARIANTS Idempotent Agree Monotone Reported Untold
CHECK_DEADLOCK FALSE
