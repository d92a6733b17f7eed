INIT Init
NEXT GNext
CONSTANTS
  K = 3
  MaxE = 4
  Labels = {"", "x"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
