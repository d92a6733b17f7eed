INIT Init
NEXT Next
CONSTANT Subject = "C18"
CHECK_DEADLOCK TRUE
