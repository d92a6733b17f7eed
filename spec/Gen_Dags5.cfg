INIT Init
NEXT Next
CONSTANTS
  K = 5
  M = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
