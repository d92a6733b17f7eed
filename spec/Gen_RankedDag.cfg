INIT GInit
NEXT GNext
CONSTANTS
  MaxNodes = 3
  MaxEdges = 3
  MaxLevel = 2
  Depth = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
