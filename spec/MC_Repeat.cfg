SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Progs = {0, 1, 2}
  Procs = {"a", "b"}
  Sorted = TRUE
INVARIANT OneWay
CHECK_DEADLOCK FALSE
