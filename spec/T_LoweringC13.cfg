INIT Init
NEXT Next
CONSTANT Subject = "C13"
CHECK_DEADLOCK TRUE
