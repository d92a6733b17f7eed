INIT Init
NEXT Next
CONSTANTS
  Alphabet <- InStrings
  First <- Quotes
  MaxLen = 7
CONSTRAINT Fresh
INVARIANT Emit
CHECK_DEADLOCK FALSE
