INIT Init
NEXT Next
CONSTANT Subject = "C09"
CHECK_DEADLOCK TRUE
