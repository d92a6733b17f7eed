SPECIFICATION Spec
INVARIANTS Types DrawnOnlyPrograms
PROPERTY EveryRunEnds
CHECK_DEADLOCK FALSE
