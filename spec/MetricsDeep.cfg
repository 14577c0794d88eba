SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Sizes = {0, 50, 3000}
INVARIANTS RunningIsTheLastWindows Gen
PROPERTY NeverUndone
CHECK_DEADLOCK FALSE
