SPECIFICATION Spec
CONSTANTS
  Grid = 5
  Box = 4
  Vals = {0, 1, 3}
INVARIANTS Agree MedianIsMiddle TurnsAreTurns Symmetric
CHECK_DEADLOCK FALSE
