SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 8, 9}
  Syms = {65}
INVARIANT Inv
CHECK_DEADLOCK FALSE
