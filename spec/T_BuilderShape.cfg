INIT Init
NEXT Next
CONSTANT Whole = FALSE
CHECK_DEADLOCK TRUE
