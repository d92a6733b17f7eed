SPECIFICATION Spec
CONSTANTS
  Nodes = 3
  Span = 6
  Heights = {1, 3}
CONSTRAINT Small
INVARIANTS Separate InOrder InPlane Stacked
CHECK_DEADLOCK TRUE
