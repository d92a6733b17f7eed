SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 5}
  Halos = {0, 1}
  Coords <- Three
  Depth = 2
INVARIANT OneBox
PROPERTY Exact
CHECK_DEADLOCK FALSE
