SPECIFICATION Spec
CONSTANTS
  Alphabet = {"a", " ", "|", "{", "}", "<", ">"}
  MaxLen = 6
INVARIANTS IsFold RoundTrip NothingLost NoBlank MaxDepth
CHECK_DEADLOCK FALSE
