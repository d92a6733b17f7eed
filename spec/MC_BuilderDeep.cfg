SPECIFICATION Spec
CONSTANTS
  MaxEvents = 6
  Names = {"a", "b"}
  Vals = {"1", "2"}
INVARIANTS EdgeScoped NodeScoped EachOnce
CHECK_DEADLOCK FALSE
