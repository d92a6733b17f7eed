INIT Init
NEXT Next
CONSTANT Subject = "C12"
CHECK_DEADLOCK TRUE
