INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Targets = {"a", "b", "missing", "dir", "full", "ro", "empty"}
  Sizes = {0, 5, 20}
  Limits = {7, 1000000}
  Depth = 3
