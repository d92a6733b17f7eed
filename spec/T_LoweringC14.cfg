INIT Init
NEXT Next
CONSTANT Subject = "C14"
CHECK_DEADLOCK TRUE
