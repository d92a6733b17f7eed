SPECIFICATION Spec
CONSTANTS
  MaxNodes = 2
  MaxEdges = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
