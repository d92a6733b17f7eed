INIT Init
NEXT Next
CONSTANTS
  Alphabet <- InComments
  First = {"/", "a"}
  MaxLen = 6
CONSTRAINT Fresh
INVARIANT Emit
CHECK_DEADLOCK FALSE
