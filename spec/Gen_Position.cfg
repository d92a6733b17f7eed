SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 5}
  Halos = {3}
  Coords <- Two
  Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
