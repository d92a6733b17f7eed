SPECIFICATION Spec
CONSTANTS
  MaxMarks = 1
  KindsN = {"box", "circle", "dcircle", "record"}
INVARIANTS Accepts Rejects Once
CHECK_DEADLOCK TRUE
