SPECIFICATION Spec
CONSTANTS
  Alphabet <- EveryKind
  MaxLen = 5
INVARIANTS IsFold RoundTrip Separators OneOutcome EndsOnce ErrPlace PlaceInText
PROPERTY Monotone
CHECK_DEADLOCK FALSE
