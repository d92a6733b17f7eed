SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 3}
  Deep = FALSE
INVARIANTS Tiles Roomy
PROPERTY Ends
CHECK_DEADLOCK TRUE
