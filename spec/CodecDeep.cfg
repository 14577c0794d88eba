SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 3, 5}
  Syms = {0, 255}
INVARIANT Inv
CHECK_DEADLOCK FALSE
