INIT Init
NEXT Next
CONSTANTS
  K = 6
  M = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
