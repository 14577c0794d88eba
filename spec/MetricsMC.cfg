SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Sizes = {0, 50, 3000}
INVARIANTS RunningIsTheLastWindows Gen
PROPERTY NeverUndone
CHECK_DEADLOCK FALSE
