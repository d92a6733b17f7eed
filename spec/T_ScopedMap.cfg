INIT TInit
NEXT TNext
CONSTANTS
  Keys = {}
  Vals = {}
  MaxDepth = 0
CHECK_DEADLOCK TRUE
