INIT TInit
NEXT TNext
CONSTANTS
  MaxNodes = 0
  MaxEdges = 0
  MaxLevel = 0
CHECK_DEADLOCK TRUE
