INIT Init
NEXT Next
INVARIANTS Emit OrderFree
CHECK_DEADLOCK FALSE
CONSTANT Depth = 4
