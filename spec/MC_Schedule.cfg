SPECIFICATION Spec
CONSTANTS
  Shapes <- QuickShapes
  Patterns <- QuickPatterns
  MayCross = FALSE
INVARIANTS Live Separate Straight Confluent
PROPERTY Ends
CHECK_DEADLOCK TRUE
