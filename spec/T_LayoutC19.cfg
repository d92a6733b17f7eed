INIT Init
NEXT Next
CONSTANT Subject = "C19"
CHECK_DEADLOCK TRUE
