SPECIFICATION Spec
CONSTANTS
  MaxEvents = 5
  Names = {"a", "b"}
  Vals = {"1", "2"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
