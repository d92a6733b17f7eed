INIT Init
NEXT Next
CONSTANT Whole = TRUE
CHECK_DEADLOCK TRUE
