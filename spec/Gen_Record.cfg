INIT Init
NEXT Next
CONSTANTS
  Alphabet = {"a", " ", "|", "{", "}", "<", ">"}
  MaxLen = 5
CONSTRAINT Fresh
INVARIANT Emit
CHECK_DEADLOCK FALSE
