INIT Init
NEXT Next
CONSTANT Subject = "C16"
CHECK_DEADLOCK TRUE
