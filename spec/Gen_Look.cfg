SPECIFICATION Spec
INVARIANTS Documented Emit
CHECK_DEADLOCK FALSE
