SPECIFICATION Spec
CONSTANTS
  Shapes <- DeepShapes
  Patterns <- DeepPatterns
  MayCross = FALSE
INVARIANTS Live Separate Straight Confluent
PROPERTY Ends
CHECK_DEADLOCK TRUE
