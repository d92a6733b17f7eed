SPECIFICATION Spec
CONSTANTS
  Targets = {"a", "b"}
  Refused = {"dir"}
  Sizes = {0, 1, 3}
  Limits = {0, 2, 9}
PROPERTIES OkIsWhole OthersKept Reports AsForetold
CHECK_DEADLOCK FALSE
