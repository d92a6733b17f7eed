INIT GInit
NEXT GNext
CONSTANTS
  Keys = {"a", "b"}
  Vals = {1, 2}
  MaxDepth = 3
  Depth = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
