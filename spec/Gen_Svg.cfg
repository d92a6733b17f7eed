SPECIFICATION Spec
CONSTANTS
  Fonts = {8, 14}
  Sizes = {10}
  Depth = 4
INVARIANT Emit
CONSTRAINT Short
CHECK_DEADLOCK FALSE
