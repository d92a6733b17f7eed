SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 5}
  Deep = TRUE
INVARIANTS Tiles Roomy
PROPERTY Ends
CHECK_DEADLOCK TRUE
