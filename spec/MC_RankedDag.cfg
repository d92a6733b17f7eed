SPECIFICATION Spec
CONSTANTS
  MaxNodes = 3
  MaxEdges = 3
  MaxLevel = 2
INVARIANTS WellFormed RankingDescends MoveIsLocal ReachIsTransitive
CHECK_DEADLOCK FALSE
