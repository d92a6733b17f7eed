INIT Init
NEXT Next
CONSTANTS
  K = 4
  M = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
