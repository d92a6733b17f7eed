INIT Init
NEXT Next
CONSTANTS
  Alphabet = {"-", "7", ".", ">", "a"}
  First = {"-", "7"}
  MaxLen = 6
CONSTRAINT Fresh
INVARIANT Emit
CHECK_DEADLOCK FALSE
