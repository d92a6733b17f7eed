INIT Init
NEXT Next
CHECK_DEADLOCK TRUE
CONSTANT Subject = "C20"
