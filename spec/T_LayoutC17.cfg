INIT Init
NEXT Next
CONSTANT Subject = "C17"
CHECK_DEADLOCK TRUE
