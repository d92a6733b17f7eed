INIT Init
NEXT Next
CONSTANTS
  Alphabet <- EveryKind
  First <- EveryKind
  MaxLen = 5
CONSTRAINT Fresh
INVARIANT Emit
CHECK_DEADLOCK FALSE
