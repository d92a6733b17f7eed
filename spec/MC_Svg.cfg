SPECIFICATION Spec
CONSTANTS
  Fonts = {8, 14}
  Sizes = {10, 90}
  Depth = 4
INVARIANTS Defined Unique
PROPERTY OnlyGrows
CONSTRAINT Short
CHECK_DEADLOCK FALSE
