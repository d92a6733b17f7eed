INIT Init
NEXT Next
CONSTANT Subject = "C28"
CHECK_DEADLOCK TRUE
